// World "lmi": matrix-inequality oracles as long-lived services asked by interleaved clients,
// with threshold updates in between, and with queries that die half way (failing allocation,
// failing element callback).  Real: ldlt_ext, lmi/lmi0/lmi_old/qmi oracles, lsq/mle fitting
// oracles, profit oracles.  Simulated: clients, allocator, element source.
#include "alloc.hpp"
#include "la.hpp"
#include <ellcpp/oracles/lmi_old_oracle.hpp>
#include <ellcpp/oracles/profit_oracle.hpp>
#include <lsq_corr_ell.cpp> // the fitting oracles live there
#include <memory>

using namespace sim;
using la::R;
using la::V;

struct Boom
{
};

static Arr arr(const V& v)
{
    Arr a = xt::zeros<double>({v.size()});
    for (size_t i = 0; i < v.size(); ++i)
        a(i) = double(v[i]);
    return a;
}

using Mats = std::vector<Arr>;

// answer of any oracle, flattened
struct Ans
{
    bool cut = false, shrunk = false, more = false;
    std::vector<double> g, extra;
    double b = 0, t = 0;
};
static bool bits(const Ans& a, const Ans& b, std::string& why)
{
    auto same = [](const std::vector<double>& x, const std::vector<double>& y) {
        return x.size() == y.size() && memcmp(x.data(), y.data(), 8 * x.size()) == 0;
    };
    if (a.cut != b.cut || a.shrunk != b.shrunk || a.more != b.more)
        why = fmt("verdict %d/%d/%d, fresh %d/%d/%d", int(a.cut), int(a.shrunk), int(a.more), int(b.cut), int(b.shrunk), int(b.more));
    else if (!same(a.g, b.g))
        why = fmt("gradient[0] %.17g, fresh %.17g", a.g.empty() ? 0. : a.g[0], b.g.empty() ? 0. : b.g[0]);
    else if (memcmp(&a.b, &b.b, 8) != 0)
        why = fmt("offset %.17g, fresh %.17g", a.b, b.b);
    else if (memcmp(&a.t, &b.t, 8) != 0)
        why = fmt("best value %.17g, fresh %.17g", a.t, b.t);
    else if (!same(a.extra, b.extra))
        why = "point differs";
    else
        return true;
    return false;
}
static void put(Ans& a, const std::tuple<Arr, double>& c)
{
    const auto& g = std::get<0>(c);
    a.cut = true;
    a.g.assign(g.begin(), g.end());
    a.b = std::get<1>(c);
}

// a service: one oracle object with its documented state
struct Service
{
    virtual ~Service() { }
    virtual Ans ask(const Arr& x) = 0;
    virtual void update(double) { }
    virtual std::unique_ptr<Service> fresh() const = 0; // same settings and documented state
    double best = 1e100;                                // caller's best value
    bool retry = false;
};

template <typename O>
struct MiService : Service
{
    const Mats& F;
    const Arr& B;
    O o;
    double t = 0;
    MiService(const Mats& f, const Arr& b)
        : F(f)
        , B(b)
        , o(f, b)
    {
    }
    Ans ask(const Arr& x) override
    {
        Ans a;
        if (auto c = o(x))
            put(a, *c);
        return a;
    }
    void update(double tt) override
    {
        if constexpr (std::is_same<O, qmi_oracle>::value)
        {
            o.update(tt);
            t = tt;
        }
    }
    std::unique_ptr<Service> fresh() const override
    {
        auto s = std::make_unique<MiService>(F, B);
        s->update(t);
        return s;
    }
};
struct Lmi0Service : Service
{
    const Mats& F;
    lmi0_oracle o;
    explicit Lmi0Service(const Mats& f)
        : F(f)
        , o(f)
    {
    }
    Ans ask(const Arr& x) override
    {
        Ans a;
        if (auto c = o(x))
            put(a, *c);
        return a;
    }
    std::unique_ptr<Service> fresh() const override { return std::make_unique<Lmi0Service>(F); }
};
template <typename O>
struct FitService : Service
{
    const Mats& F;
    const Arr& Y;
    O o;
    FitService(const Mats& f, const Arr& y)
        : F(f)
        , Y(y)
        , o(f, y)
    {
    }
    Ans ask(const Arr& x) override
    {
        Ans a;
        double t = best;
        auto r = o(x, t);
        best = t;
        put(a, std::get<0>(r));
        a.shrunk = std::get<1>(r);
        a.t = t;
        return a;
    }
    std::unique_ptr<Service> fresh() const override
    {
        auto s = std::make_unique<FitService>(F, Y);
        s->best = best;
        return s;
    }
};
struct ProfitPar
{
    double p, A, k, e3;
    Arr a, v, e;
};
struct RbService : Service
{
    const ProfitPar& q;
    profit_rb_oracle o;
    explicit RbService(const ProfitPar& p)
        : q(p)
        , o(p.p, p.A, p.k, p.a, p.v, p.e, p.e3)
    {
        best = 0;
    }
    Ans ask(const Arr& x) override
    {
        Ans a;
        auto r = o(x, best);
        put(a, std::get<0>(r));
        a.shrunk = std::get<1>(r);
        a.t = best;
        return a;
    }
    std::unique_ptr<Service> fresh() const override
    {
        auto s = std::make_unique<RbService>(q);
        s->best = best;
        return s;
    }
};
struct PqService : Service
{
    const ProfitPar& q;
    profit_q_oracle o;
    Arr kept; // the centre of the last normal query
    bool has = false;
    explicit PqService(const ProfitPar& p)
        : q(p)
        , o(p.p, p.A, p.k, p.a, p.v)
    {
        best = 0;
    }
    Ans ask(const Arr& x) override
    {
        Ans a;
        const bool re = retry && has;
        auto r = o(x, best, re);
        if (!re)
            kept = x, has = true;
        put(a, std::get<0>(r));
        a.extra.assign(std::get<1>(r).begin(), std::get<1>(r).end());
        a.shrunk = std::get<2>(r);
        a.more = std::get<3>(r);
        a.t = best;
        return a;
    }
    std::unique_ptr<Service> fresh() const override
    {
        auto s = std::make_unique<PqService>(q);
        if (has)
        { // the point kept for an alternative is documented state
            double t = 0;
            s->o(kept, t, false);
            s->kept = kept;
            s->has = true;
        }
        s->best = best;
        s->retry = retry;
        return s;
    }
};

// ------------------------------------------------------------ the problem and its reference
struct Problem
{
    size_t n, m, rows;
    Mats F, G;     // symmetric (lmi), general (qmi)
    Arr B, C;      // lmi constant, qmi constant
    Mats S;        // correlation basis, S[0] positive definite
    Arr Y;         // covariance to fit
    V inner;       // strictly feasible for the lmi
    V inner0;      // strictly feasible for lmi0 on S
    ProfitPar pp;
    V u;           // the unit of each row the lmi oracles are given (powers of two)
    R umax = 1;
    Mats gF, gS;   // what they are given
    Arr gB;

    Mats given(Mats f) const
    {
        for (auto& a : f)
            a = given(a);
        return f;
    }
    Arr given(Arr a) const
    {
        for (size_t i = 0; i < m; ++i)
            for (size_t j = 0; j < m; ++j)
                a(i, j) = double(R(a(i, j)) * u[i] * u[j]);
        return a;
    }
    static Arr sym(Rng& q, size_t m, double diag, double scale = 1)
    {
        Arr a = xt::zeros<double>({m, m});
        for (size_t i = 0; i < m; ++i)
            for (size_t j = 0; j <= i; ++j)
                a(i, j) = a(j, i) = scale * q.normal() + (i == j ? diag : 0.);
        return a;
    }
    explicit Problem(const Scenario& sc)
    {
        Rng q(sc.u("pseed"));
        n = size_t(sc.i("n"));
        m = size_t(sc.i("m"));
        rows = size_t(sc.i("rows"));
        const double sp = sc.d("sparse");
        for (size_t k = 0; k < n; ++k)
        {
            F.push_back(sym(q, m, 0));
            for (size_t i = 0; i < m; ++i)
                for (size_t j = 0; j < i; ++j)
                    if (q.p(sp))
                        F.back()(i, j) = F.back()(j, i) = 0;
        }
        inner.resize(n);
        B = xt::zeros<double>({m, m});
        Arr L = xt::zeros<double>({m, m});
        for (size_t i = 0; i < m; ++i)
            for (size_t j = 0; j < m; ++j)
                L(i, j) = q.normal() * 0.5;
        for (size_t i = 0; i < m; ++i)
            for (size_t j = 0; j < m; ++j)
            {
                double s = i == j ? q.u(0.2, 1.5) : 0.;
                if (j < i)
                    s = 0;
                for (size_t k = 0; k < m; ++k)
                    if (j >= i)
                        s += L(i, k) * L(j, k);
                if (j >= i)
                    B(i, j) = B(j, i) = s;
            }
        for (size_t k = 0; k < n; ++k)
        {
            inner[k] = q.u(-1, 1);
            for (size_t i = 0; i < m; ++i)
                for (size_t j = 0; j < m; ++j)
                    B(i, j) += double(inner[k]) * F[k](i, j);
        }
        for (size_t i = 0; i < m; ++i)
            for (size_t j = 0; j < i; ++j)
                B(i, j) = B(j, i);
        // quadratic: rows x m, the oracle looks at t I - (C - sum G x)'(C - sum G x)
        for (size_t k = 0; k < n; ++k)
        {
            Arr g = xt::zeros<double>({rows, m});
            for (auto& v : g)
                v = q.normal();
            G.push_back(g);
        }
        C = xt::zeros<double>({rows, m});
        for (auto& v : C)
            v = q.normal();
        // correlation: powers of distances as in construct_poly_matrix, made well conditioned
        for (size_t k = 0; k < n; ++k)
        {
            Arr s = sym(q, m, 0, 0.3);
            if (k == 0)
                for (size_t i = 0; i < m; ++i)
                    s(i, i) += 2.5 + 0.5 * double(m);
            S.push_back(s);
        }
        inner0.assign(n, 0);
        inner0[0] = 1;
        Y = sym(q, m, 0, 0.3);
        for (size_t i = 0; i < m; ++i)
            Y(i, i) += 2. + 0.5 * double(m);
        pp.p = q.u(5, 40);
        pp.A = q.u(5, 60);
        pp.k = q.u(2, 60);
        pp.e3 = q.u(0, 1);
        pp.a = Arr {q.u(0.05, 0.45), q.u(0.05, 0.45)};
        pp.v = Arr {q.u(1, 20), q.u(1, 30)};
        pp.e = Arr {q.u(0, 0.04), q.u(0, 0.04)};
        u.assign(m, ldexpl(1, int(sc.i("unit"))));
        for (auto& x : u)
        {
            if (const long k = sc.i("units"))
                x = ldexpl(1, int(q.i(-k, k)));
            umax = std::max(umax, x * x);
        }
        if (sc.i("unit"))
            umax = u[0] * u[0];
        gF = given(F), gS = given(S), gB = given(B);
    }
    // the matrix an oracle tests at x, and its scale
    la::M mat(const std::string& kind, const V& x, R t, R& scale) const
    {
        la::M a(m);
        scale = 1e-300L;
        if (kind == "qmi")
        {
            std::vector<R> fx(rows * m);
            R big = fabsl(t);
            for (size_t i = 0; i < rows; ++i)
                for (size_t j = 0; j < m; ++j)
                {
                    R s = C(i, j), ab = fabsl(s);
                    for (size_t k = 0; k < n; ++k)
                        s -= R(G[k](i, j)) * x[k], ab += fabsl(R(G[k](i, j)) * x[k]);
                    fx[i * m + j] = s;
                    big = std::max(big, ab * ab * R(rows));
                }
            for (size_t i = 0; i < m; ++i)
                for (size_t j = 0; j < m; ++j)
                {
                    R s = i == j ? t : 0;
                    for (size_t k = 0; k < rows; ++k)
                        s -= fx[k * m + i] * fx[k * m + j];
                    a(i, j) = s;
                }
            scale = big;
            return a;
        }
        const Mats& f = kind == "lmi0" ? S : kind == "mlelmi" ? S : F;
        for (size_t i = 0; i < m; ++i)
            for (size_t j = 0; j < m; ++j)
            {
                R s = kind == "lmi0" ? 0 : kind == "mlelmi" ? 2 * R(Y(i, j)) : R(B(i, j)), ab = fabsl(s);
                for (size_t k = 0; k < n; ++k)
                {
                    R d = R(f[k](i, j)) * x[k];
                    s += kind == "lmi0" ? d : -d;
                    ab += fabsl(d);
                }
                a(i, j) = s;
                scale = std::max(scale, ab);
            }
        return a;
    }
    R margin(const std::string& kind, const V& x, R t, R& scale) const
    {
        V e = la::eigs(mat(kind, x, t, scale));
        return *std::min_element(e.begin(), e.end());
    }
    // largest witness the factorisation could need at an infeasible point (long double LDL')
    R witness_size(const la::M& a) const
    {
        la::M l(m);
        V d(m);
        for (size_t i = 0; i < m; ++i)
        {
            R s = 0;
            for (size_t j = 0; j <= i; ++j)
            {
                s = a(i, j);
                for (size_t k = 0; k < j; ++k)
                    s -= l(i, k) * l(j, k) * d[k];
                if (j < i)
                    l(i, j) = s / d[j];
            }
            d[i] = s;
            if (s <= 0)
            {
                V v(m, 0.L);
                v[i] = 1;
                R q = 1;
                for (size_t j = i; j-- > 0;)
                {
                    for (size_t k = j + 1; k <= i; ++k)
                        v[j] -= l(k, j) * v[k];
                    q += v[j] * v[j];
                }
                return q;
            }
        }
        return 1e30L;
    }
    // correlation fit: least squares.  variables (x, t): lmi0(x), qmi with (S, Y)
    R fitmargin(const V& xt, R& scale) const
    {
        V x(xt.begin(), xt.end() - 1);
        R t = xt[n];
        la::M a(m);
        std::vector<R> fx(m * m);
        R big = fabsl(t);
        for (size_t i = 0; i < m; ++i)
            for (size_t j = 0; j < m; ++j)
            {
                R s = Y(i, j), ab = fabsl(s);
                for (size_t k = 0; k < n; ++k)
                    s -= R(S[k](i, j)) * x[k], ab += fabsl(R(S[k](i, j)) * x[k]);
                fx[i * m + j] = s;
                big = std::max(big, ab * ab * R(m));
            }
        for (size_t i = 0; i < m; ++i)
            for (size_t j = 0; j < m; ++j)
            {
                R s = i == j ? t : 0;
                for (size_t k = 0; k < m; ++k)
                    s -= fx[k * m + i] * fx[k * m + j];
                a(i, j) = s;
            }
        scale = big;
        V e = la::eigs(a);
        return *std::min_element(e.begin(), e.end());
    }
    // maximum likelihood objective at x (needs S(x) > 0)
    bool mle(const V& x, R& f) const
    {
        R scale;
        la::M s = mat("lmi0", x, 0, scale);
        la::Chol ch(s);
        if (!ch.ok)
            return false;
        f = ch.logdet;
        // trace(S^-1 Y) by solving
        for (size_t c = 0; c < m; ++c)
        {
            V y(m);
            for (size_t i = 0; i < m; ++i)
            {
                R v = R(Y(i, c)) / ch.sc[i];
                for (size_t k = 0; k < i; ++k)
                    v -= ch.L(i, k) * y[k];
                y[i] = v / ch.L(i, i);
            }
            V z(m);
            for (size_t ii = m; ii-- > 0;)
            {
                R v = y[ii];
                for (size_t k = ii + 1; k < m; ++k)
                    v -= ch.L(k, ii) * z[k];
                z[ii] = v / ch.L(ii, ii);
            }
            f += z[c] / ch.sc[c];
        }
        return true;
    }
};

static const R EPS = 1e-9L;

struct LmiWorld : World
{
    Scenario gen(Rng& r, const std::string& prop, bool thorough) override
    {
        Scenario sc;
        sc.set("pseed", r.next());
        const bool large = r.p(0.02);
        sc.set("n", large ? r.i(5, 8) : r.i(1, thorough ? 6 : 4));
        sc.set("m", large ? r.i(7, 14) : r.i(1, thorough ? 8 : 6));
        sc.set("rows", r.i(1, 5));
        sc.set("sparse", r.pick({0., 0., 0.5, 1.}));
        std::vector<std::string> kinds;
        if (prop == "C21")
        {
            sc.set("kinds", "ldlt");
            for (long k = 0, len = r.i(1, thorough ? 40 : 15); k < len; ++k)
            {
                // kind of matrix, seed, via (0 matrix, 1 callback, 2 callback, zero pivots allowed), failing element (0 none)
                sc.add(fmt("fac %ld %llu %ld %ld", r.i(0, 9), (unsigned long long)(r.next() >> 16), r.i(0, 2), r.p(0.25) ? r.i(1, 20) : 0L) + (r.p(0.3) ? fmt(" %ld %d", r.pick({1L, 10L, 30L}), int(r.p(0.5))) : ""));
            }
            return sc;
        }
        std::vector<std::string> all = {"lmi", "lmi0", "old", "qmi", "lsq", "mle"};
        if (prop == "C16")
            all.push_back("rb"), all.push_back("pq");
        long ns = r.i(1, 4);
        std::string ks;
        for (long k = 0; k < ns; ++k)
            ks += (k ? " " : "") + r.pick(all);
        sc.set("kinds", ks);
        const double pf = r.p(0.3) ? 0. : r.u(0, 0.4), pu = r.u(0, 0.4), pd = r.u(0, 0.3);
        // the inequalities in other units: all alike by a power of two, or every row its own
        if (r.p(0.25))
            sc.set("unit", r.pick({-20L, -6L, 8L, 20L}));
        else if (r.p(0.2))
            sc.set("units", r.i(1, 6));
        for (long k = 0, len = r.i(3, thorough ? 60 : 24); k < len; ++k)
        {
            long s = r.i(0, ns - 1);
            if (r.p(pu))
                sc.add(fmt("upd %ld %.17g", s, r.p(0.3) ? r.u(0, 3) : std::pow(10, r.u(-1, 2))));
            if (r.p(pf))
                sc.add(fmt("die %ld %s %llu %ld %d", s, r.pick({"r", "b", "f"}), (unsigned long long)(r.next() >> 16), r.i(1, 25), int(r.p(0.3))));
            sc.add(fmt("ask %ld %s %llu %.6g %d", s, r.pick({"r", "r", "b", "b", "f", "h", "z"}), (unsigned long long)(r.next() >> 16), std::pow(10, r.u(-4, 0)), int(r.p(0.2))));
            if (r.p(pd))
                sc.add(fmt("dup %ld", s));
        }
        return sc;
    }

    // a query point for a service; z gets a feasible boundary point close by, if there is one
    static V point(const Problem& pb, const std::string& kind, R t, R best, const std::string& mode, uint64_t seed, double eps, V& z)
    {
        Rng q(seed);
        z.clear();
        size_t n = pb.n;
        if (kind == "rb" || kind == "pq")
        {
            V x(2);
            x[0] = q.u(-1, 5);
            x[1] = q.u(-1, 5);
            return x;
        }
        const bool fit = kind == "lsq";
        V in = kind == "lmi0" || kind == "mle" || fit ? pb.inner0 : pb.inner;
        if (kind == "qmi")
            for (auto& v : in)
                v *= 0.3L;
        auto ok = [&](const V& x) {
            R s;
            if (kind == "mle")
            {
                if (pb.margin("mlelmi", x, 0, s) <= EPS * s * 100 || pb.margin("lmi0", x, 0, s) <= EPS * s * 100)
                    return false;
                R f;
                return pb.mle(x, f) && f <= best;
            }
            if (fit)
            {
                V y(x.begin(), x.end() - 1);
                return pb.margin("lmi0", y, 0, s) > EPS * s * 100 && pb.fitmargin(x, s) > EPS * s * 100 && x[n] <= best;
            }
            const std::string k2 = kind == "old" ? "lmi" : kind;
            R mg = pb.margin(k2, x, t, s);
            return mg > EPS * s * 100;
        };
        if (fit)
        {
            V e(in);
            R s;
            e.push_back(1);
            R top = 1;
            for (int k = 0; k < 60 && pb.fitmargin(e, s) <= EPS * s * 100; ++k)
                e[n] = top *= 1.5L;
            if (best < e[n] * 2)
                e[n] = std::min(best, e[n]);
            in = e;
        }
        if (mode == "z")
            return V(in.size(), 0.L);
        V d = la::unit_dir(q.next(), in.size());
        Rng odd(seed ^ 0x5bd1e995u);
        if (odd.p(0.3))
        { // some coordinates stay where they are
            const size_t keep = size_t(odd.i(0, long(d.size()) - 1));
            for (size_t i = 0; i < d.size(); ++i)
                if (i != keep && odd.p(0.5))
                    d[i] = 0;
        }
        if (fit)
            d[n] *= in[n];
        if (mode == "f" || mode == "b")
        {
            if (!ok(in))
            { // look around for a feasible point
                for (int k = 0; k < 40 && !ok(in); ++k)
                {
                    V w = la::unit_dir(q.next(), in.size());
                    for (size_t i = 0; i < in.size(); ++i)
                        in[i] = w[i] * q.u(0, 1.2);
                    if (fit)
                        in[n] = fabsl(in[n]) * 50;
                }
            }
            if (ok(in))
            {
                R lo = 0, hi = 0.1L;
                for (int k = 0; k < 30 && ok(la::axpy(hi, d, in)); ++k)
                    lo = hi, hi *= 2;
                if (hi < 1e6L)
                {
                    for (int k = 0; k < 40; ++k)
                    {
                        R mid = (lo + hi) / 2;
                        (ok(la::axpy(mid, d, in)) ? lo : hi) = mid;
                    }
                    z = la::axpy(lo, d, in);
                }
                if (mode == "f")
                    return la::axpy(lo * R(q.u(0, 0.98)), d, in);
                if (!z.empty())
                    return la::axpy(hi * (1 + R(eps)) + R(eps) * 0.01L, d, in);
            }
        }
        R mag = mode == "h" ? powl(10.L, q.u(0, 4)) : R(q.u(0, 3));
        V x = in;
        for (size_t i = 0; i < x.size(); ++i)
            x[i] += mag * d[i];
        const double how = odd.u();
        for (size_t i = 0; i < x.size(); ++i)
        { // points as people write them: zeros, whole numbers, equal entries
            if (how < 0.2 && odd.p(0.5))
                x[i] = 0;
            else if (how >= 0.2 && how < 0.3)
                x[i] = roundl(x[i] * 2) / 2;
            else if (how >= 0.3 && how < 0.35)
                x[i] = x[0];
        }
        return x;
    }

    void run(const Scenario& sc, Ctx& c) override
    {
        if (sc.s("kinds") == "ldlt")
            return run_ldlt(sc, c);
        const bool c16 = sc.s("prop") == "C16";
        simalloc::fill = c16 ? 0x5a : -1;
        Problem pb(sc);
        std::vector<std::string> kinds;
        std::vector<std::unique_ptr<Service>> sv;
        std::vector<R> thr;
        {
            std::istringstream is(sc.s("kinds"));
            std::string k;
            while (is >> k)
            {
                kinds.push_back(k);
                thr.push_back(0);
                c.token(k);
                if (k == "lmi")
                    sv.push_back(std::make_unique<MiService<lmi_oracle>>(pb.gF, pb.gB));
                else if (k == "old")
                    sv.push_back(std::make_unique<MiService<lmi_old_oracle>>(pb.gF, pb.gB));
                else if (k == "qmi")
                    sv.push_back(std::make_unique<MiService<qmi_oracle>>(pb.G, pb.C));
                else if (k == "lmi0")
                    sv.push_back(std::make_unique<Lmi0Service>(pb.gS));
                else if (k == "lsq")
                    sv.push_back(std::make_unique<FitService<lsq_oracle>>(pb.S, pb.Y));
                else if (k == "mle")
                    sv.push_back(std::make_unique<FitService<mle_oracle>>(pb.S, pb.Y));
                else if (k == "rb")
                    sv.push_back(std::make_unique<RbService>(pb.pp));
                else
                    sv.push_back(std::make_unique<PqService>(pb.pp));
            }
        }
        std::vector<V> last(sv.size());
        for (auto& st : sc.steps)
        {
            c.simtime += 1;
            const std::string& op = st.op();
            const size_t i = size_t(st.i(1));
            if (i >= sv.size())
                continue;
            if (op == "upd")
            {
                if (kinds[i] == "qmi")
                {
                    sv[i]->update(st.d(2));
                    thr[i] = st.d(2);
                    c.fault("threshold-update");
                    c.ev("upd %zu %.17g", i, st.d(2));
                }
                continue;
            }
            V x, z;
            if (op == "dup")
            { // the same question again
                if (last[i].empty())
                    continue;
                x = last[i];
                c.fault("query-duplicated");
            }
            else
                x = point(pb, kinds[i], thr[i], sv[i]->best, st.str(2), st.u(3), st.d(4), z);
            Arr xa = arr(x);
            for (size_t k = 0; k < x.size(); ++k)
                x[k] = xa(k); // what is really asked
            if (op == "die")
            {
                const double keep = sv[i]->best;
                simalloc::arm(st.i(4), st.i(5) != 0);
                bool died = false;
                try
                {
                    Ans a = sv[i]->ask(xa);
                }
                catch (const std::bad_alloc&)
                {
                    died = true;
                }
                simalloc::disarm();
                if (died)
                    c.fault("query-died-no-memory");
                c.ev("die %zu %d", i, int(died));
                if (died && kinds[i] == "pq")
                { // which point it kept is open until the next normal query
                    static_cast<PqService*>(sv[i].get())->has = false;
                }
                if (died)
                    sv[i]->best = keep; // the caller takes nothing from a failed query
                continue;
            }
            last[i] = x;
            sv[i]->retry = op == "ask" && st.i(5) != 0;
            const R before = sv[i]->best;
            std::unique_ptr<Service> f;
            if (c16)
            {
                simalloc::fill = 0xa5;
                f = sv[i]->fresh();
                simalloc::fill = 0x5a;
            }
            Ans a = sv[i]->ask(xa);
            c.ev("ask %zu %s -> cut=%d b=%.17g g0=%.17g t=%.17g", i, kinds[i].c_str(), int(a.cut), a.b, a.g.empty() ? 0. : a.g[0], a.t);
            c.token(kinds[i] + (a.cut ? "c" : "a") + (a.shrunk ? "+" : ""));
            if (c16)
            {
                ++c.checks;
                Ans b = f->ask(xa);
                std::string why;
                bool nan = false;
                for (double v : b.g)
                    nan = nan || std::isnan(v);
                if (!nan && !bits(a, b, why))
                    c.violate("answer-depends-on-history", "%s: %s", kinds[i].c_str(), why.c_str());
            }
            else
                judge(pb, kinds[i], thr[i], before, x, z, a, c);
        }
    }

    static void judge(const Problem& pb, const std::string& kind, R t, R before, const V& x, const V& z, const Ans& a, Ctx& c)
    {
        const size_t n = pb.n;
        R scale = 0;
        auto soundcut = [&](const V& y, R slack, const char* what) {
            // the cut must hold at y
            ++c.checks;
            R s = a.b, ab = fabsl(a.b);
            for (size_t k = 0; k < y.size(); ++k)
            {
                s += R(a.g[k]) * (y[k] - x[k]);
                ab += fabsl(R(a.g[k])) * (fabsl(y[k]) + fabsl(x[k]));
            }
            if (!(s <= 1e-9L * ab + slack))
                c.violate("cut-removes-answer", "%s: the cut removes %s: g'(z-x)+beta = %.9Lg (beta %.9g)", kind.c_str(), what, s, a.b);
        };
        auto sane = [&]() {
            for (double g : a.g)
                if (!std::isfinite(g))
                    return false;
            return bool(std::isfinite(a.b));
        };
        // feasible points to hold a cut against
        auto around = [&](auto&& ok, R slack) {
            if (!z.empty() && ok(z))
            {
                soundcut(z, slack, "a feasible point next to the query");
                c.probe("boundary-point-tested");
            }
            Rng q(uint64_t(c.events) * 77 + 5);
            V top, in = kind == "lmi" || kind == "old" ? pb.inner : pb.inner0;
            if (kind == "qmi")
            {
                in = V(n, 0.L);
            }
            if (kind == "lsq")
                in.push_back(0);
            for (int k = 0; k < 6; ++k)
            {
                V y(in);
                if (kind == "lsq")
                    y[n] = std::min<R>(before, fabsl(x[n]) + R(q.u(0, 100)));
                if (k > 0)
                {
                    V d = la::unit_dir(q.next(), y.size());
                    R lo = 0, hi = R(q.u(0, 3));
                    if (!ok(y))
                        continue;
                    if (!ok(la::axpy(hi, d, y)))
                        for (int j = 0; j < 25; ++j)
                        {
                            R mid = (lo + hi) / 2;
                            (ok(la::axpy(mid, d, y)) ? lo : hi) = mid;
                        }
                    else
                        lo = hi;
                    y = la::axpy(lo, d, y);
                }
                if (ok(y))
                {
                    soundcut(y, slack, "a feasible point");
                    top = y;
                }
            }
            if (top.empty() && !z.empty() && ok(z))
                top = z;
            if (top.empty() || !q.p(0.5))
                return;
            // climb towards the feasible point the cut is hardest on
            const size_t N = top.size();
            V up(N), size(N, 1.L);
            if (kind == "lsq")
                size[n] = std::max<R>(1, fabsl(top[n]));
            R ng = 0;
            for (size_t i = 0; i < N; ++i)
                up[i] = R(a.g[i]) * size[i] * size[i], ng += R(a.g[i]) * up[i];
            if (!(ng > 0))
                return;
            for (int k = 0; k < 9; ++k)
            {
                V d(up);
                if (k % 2)
                { // along the cut, a little upwards
                    d = la::unit_dir(q.next(), N);
                    R s = 0;
                    for (size_t i = 0; i < N; ++i)
                        d[i] *= size[i], s += R(a.g[i]) * d[i];
                    for (size_t i = 0; i < N; ++i)
                        d[i] -= up[i] * (s / ng) * R(0.95);
                    if (s < 0)
                        for (auto& v : d)
                            v = -v;
                }
                else
                    for (auto& v : d)
                        v /= sqrtl(ng);
                R lo = 0, hi = 0.05L;
                for (int j = 0; j < 12 && ok(la::axpy(hi, d, top)); ++j)
                    lo = hi, hi *= 2;
                for (int j = 0; j < 14; ++j)
                {
                    R mid = (lo + hi) / 2;
                    (ok(la::axpy(mid, d, top)) ? lo : hi) = mid;
                }
                V y = la::axpy(lo, d, top);
                if (ok(y))
                    soundcut(y, slack, "the feasible point found by climbing against it");
                top = la::axpy(k % 2 ? lo / 2 : lo * 0.999L, d, top);
                if (!ok(top))
                    return;
            }
            c.probe("climbed-against-the-cut");
        };
        ++c.checks;
        if (kind == "lmi" || kind == "old" || kind == "lmi0" || kind == "qmi")
        {
            const std::string k2 = kind == "old" ? "lmi" : kind;
            R mg = pb.margin(k2, x, t, scale);
            if (mg > EPS * scale && a.cut)
                c.violate("feasible-refused", "%s: the matrix is positive definite (smallest eigenvalue %.6Lg) but a cut is returned", kind.c_str(), mg);
            if (mg < -EPS * scale && !a.cut)
                c.violate("infeasible-accepted", "%s: the matrix is indefinite (smallest eigenvalue %.6Lg) but the point is accepted", kind.c_str(), mg);
            c.probe(a.cut ? "cut" : "accepted");
            if (!a.cut || mg > -EPS * scale)
                return;
            la::M mm = pb.mat(k2, x, t, scale);
            R w = pb.witness_size(mm);
            if (w > 1e6L)
                return; // the certificate itself is at the mercy of rounding
            if (!sane())
                c.violate("not-finite", "%s: the cut is not finite", kind.c_str());
            R slack = 1e-11L * scale * w * (kind == "qmi" ? 1 : pb.umax);
            if (!(R(a.b) >= -slack))
                c.violate("cut-keeps-query-point", "%s: beta = %.9g: the cut keeps the query point", kind.c_str(), a.b);
            around(
                [&](const V& y) {
                    R s;
                    return pb.margin(k2, y, t, s) > EPS * s;
                },
                slack);
            return;
        }
        if (kind == "lsq")
        {
            V y(x.begin(), x.end() - 1);
            R s0, s1, m0 = pb.margin("lmi0", y, 0, s0), m1 = pb.fitmargin(x, s1);
            bool feas = m0 > EPS * s0 && m1 > EPS * s1, infeas = m0 < -EPS * s0 || m1 < -EPS * s1;
            if (!feas && !infeas)
                return;
            if (infeas && (a.shrunk || R(a.t) != before))
                c.violate("infeasible-announced", "lsq: an infeasible point changed the best value");
            if (feas && x[n] < before && !(a.shrunk && R(a.t) == x[n]))
                c.violate("improvement-missed", "lsq: a feasible point with t=%.9Lg < %.9Lg was not announced", x[n], before);
            if (feas && x[n] > before && (a.shrunk || R(a.t) != before))
                c.violate("best-value-wrong", "lsq: the best value went from %.17Lg to %.17g", before, a.t);
            c.probe(infeas ? "cut" : a.shrunk ? "improved" : "objective-cut");
            if (!sane())
                c.violate("not-finite", "lsq: the cut is not finite");
            R w = 1;
            if (m0 < -EPS * s0)
                w = pb.witness_size(pb.mat("lmi0", y, 0, s0)), scale = s0;
            else if (infeas)
                scale = s1, w = 1e3L;
            if (w > 1e6L)
                return;
            R slack = 1e-11L * scale * w;
            if (!(R(a.b) >= -slack))
                c.violate("cut-keeps-query-point", "lsq: beta = %.9g: the cut keeps the query point", a.b);
            const R now = a.t;
            around(
                [&](const V& v) {
                    V u(v.begin(), v.end() - 1);
                    R s;
                    return v[n] <= now && pb.margin("lmi0", u, 0, s) > EPS * s && pb.fitmargin(v, s) > EPS * s;
                },
                slack);
            return;
        }
        // mle
        R s0, s1, m0 = pb.margin("mlelmi", x, 0, s0), m1 = pb.margin("lmi0", x, 0, s1);
        bool feas = m0 > EPS * s0 && m1 > EPS * s1, infeas = m0 < -EPS * s0 || m1 < -EPS * s1;
        if (!feas && !infeas)
            return;
        if (infeas && (a.shrunk || R(a.t) != before))
            c.violate("infeasible-announced", "mle: an infeasible point changed the best value");
        R f = 0;
        R slack;
        if (feas)
        {
            if (m1 < 1e-4L * s1 || !pb.mle(x, f))
                return;
            R tol = 1e-8L * (1 + fabsl(f));
            if (f < before - tol && !(a.shrunk && fabsl(R(a.t) - f) <= tol))
                c.violate("improvement-missed", "mle: value %.12Lg < best %.12Lg, announced %.12g (%d)", f, before, a.t, int(a.shrunk));
            if (f > before + tol && (a.shrunk || R(a.t) != before))
                c.violate("best-value-wrong", "mle: the best value went from %.17Lg to %.17g at a point of value %.12Lg", before, a.t, f);
            slack = tol;
        }
        else
        {
            const bool first = m0 < -EPS * s0;
            R w = pb.witness_size(pb.mat(first ? "mlelmi" : "lmi0", x, 0, scale));
            if (w > 1e6L)
                return;
            slack = 1e-11L * scale * w;
        }
        c.probe(infeas ? "cut" : a.shrunk ? "improved" : "objective-cut");
        if (!sane())
            c.violate("not-finite", "mle: the cut is not finite");
        if (!(R(a.b) >= -slack))
            c.violate("cut-keeps-query-point", "mle: beta = %.9g: the cut keeps the query point", a.b);
        const R now = a.t;
        around(
            [&](const V& v) {
                R s, fv;
                return pb.margin("mlelmi", v, 0, s) > EPS * s && pb.margin("lmi0", v, 0, s) > EPS * s && pb.mle(v, fv) && fv <= now;
            },
            slack);
    }

    // ------------------------------------------------------------ one engine, many matrices
    static void run_ldlt(const Scenario& sc, Ctx& c)
    {
        const size_t m = size_t(sc.i("m"));
        ldlt_ext Q(m);
        for (auto& st : sc.steps)
        {
            c.simtime += 1;
            Rng q(st.u(2));
            const int kind = int(st.i(1));
            la::M a(m);
            auto gram = [&](size_t rank) {
                la::M b(m);
                for (size_t k = 0; k < rank; ++k)
                {
                    V v(m);
                    for (auto& x : v)
                        x = q.normal();
                    for (size_t i = 0; i < m; ++i)
                        for (size_t j = 0; j < m; ++j)
                            b(i, j) += v[i] * v[j];
                }
                return b;
            };
            switch (kind)
            {
                case 0: // positive definite
                    a = gram(m + 2);
                    for (size_t i = 0; i < m; ++i)
                        a(i, i) += 0.05L;
                    break;
                case 1: // any
                    for (size_t i = 0; i < m; ++i)
                        for (size_t j = 0; j <= i; ++j)
                            a(i, j) = a(j, i) = q.normal();
                    break;
                case 2: // indefinite from a chosen row on
                {
                    a = gram(m + 2);
                    size_t k = size_t(q.i(0, long(m) - 1));
                    a(k, k) -= fabsl(a(k, k)) * 2 + 1;
                    break;
                }
                case 3: // negative definite
                    a = gram(m + 2);
                    for (auto& v : a.a)
                        v = -v;
                    break;
                case 4: // zero pivot, exactly
                {
                    size_t k = size_t(q.i(0, long(m) - 1));
                    for (size_t i = 0; i < m; ++i)
                        a(i, i) = i == k ? 0.L : R(q.i(1, 4));
                    break;
                }
                case 5: // singular with small integers: a leading block of rank one
                    for (size_t i = 0; i < m; ++i)
                        for (size_t j = 0; j < m; ++j)
                            a(i, j) = 1;
                    break;
                case 6: // nearly diagonal, widely scaled
                    for (size_t i = 0; i < m; ++i)
                        a(i, i) = powl(10.L, q.i(-3, 3)) * (q.p(0.15) ? -1 : 1);
                    break;
                case 8: // known pivots, exact in binary arithmetic, zeros among them
                case 9: // the same with a negative one
                {
                    la::M l(m);
                    V dd(m);
                    for (size_t i = 0; i < m; ++i)
                    {
                        dd[i] = q.p(0.3) ? 0.L : R(1L << q.i(0, 3));
                        for (size_t j = 0; j < i; ++j)
                            l(i, j) = R(q.i(-2, 2));
                        l(i, i) = 1;
                    }
                    if (kind == 9)
                        dd[size_t(q.i(0, long(m) - 1))] = -R(q.i(1, 3));
                    for (size_t i = 0; i < m; ++i)
                        for (size_t j = 0; j < m; ++j)
                            for (size_t k = 0; k <= std::min(i, j); ++k)
                                a(i, j) += l(i, k) * dd[k] * l(j, k);
                    break;
                }
                default: // positive definite up to the last row
                    a = gram(m + 2);
                    a(m - 1, m - 1) -= R(q.u(0, 2)) * a(m - 1, m - 1);
                    break;
            }
            // rows and columns in other units (powers of two: exact), by one factor or each by its own;
            // everything below is judged in the units before
            std::vector<R> u(m, 1);
            if (st.i(5) > 0)
            {
                c.fault("rescaled");
                const R one = ldexpl(1, int(q.i(-st.i(5), st.i(5))));
                for (auto& x : u)
                    x = st.i(6) ? one : ldexpl(1, int(q.i(-st.i(5), st.i(5))));
            }
            Arr A = xt::zeros<double>({m, m});
            R scale = 1e-300L;
            for (size_t i = 0; i < m; ++i)
                for (size_t j = 0; j <= i; ++j)
                {
                    A(i, j) = double(a(i, j));
                    a(i, j) = a(j, i) = A(i, j);
                    A(i, j) = double(a(i, j) * u[i] * u[j]);
                    scale = std::max(scale, fabsl(a(i, j)));
                    if (i != j)
                        A(j, i) = NAN; // what the engine has no need to look at
                }
            const long die = st.i(4);
            const bool semi = st.i(3) == 2;
            long looks = 0;
            bool ok = false, died = false;
            size_t maxrow = 0;
            try
            {
                if (st.i(3) == 0 && die == 0)
                    ok = Q.factorize(A);
                else
                {
                    auto get = [&](size_t i, size_t j) -> double {
                        ++looks;
                        if (looks == die)
                            throw Boom();
                        if (i >= m || j > i)
                            c.violate("looked-elsewhere", "the engine asks for element (%zu,%zu) of a %zu x %zu matrix", i, j, m, m);
                        maxrow = std::max(maxrow, i);
                        return A(i, j);
                    };
                    if (semi)
                        ok = Q.factor<decltype(get)&, true>(get);
                    else
                        ok = Q.factor(get);
                }
            }
            catch (const Boom&)
            {
                died = true;
            }
            c.ev("fac kind=%d semi=%d died=%d ok=%d p=%zu,%zu", kind, int(semi), int(died), int(ok), Q.p.first, Q.p.second);
            if (died)
            {
                c.fault("element-source-failed");
                c.token("x");
                continue;
            }
            ++c.checks;
            // reference: leading minors by an own factorisation; where zero pivots are
            // allowed the rows behind one are judged on their own
            la::M l(m);
            V d(m);
            size_t bad = m, first = 0;
            bool sure = true;
            R dmin = 1e300L;
            for (size_t i = 0; i < m && bad == m; ++i)
            {
                R s = 0;
                for (size_t j = first; j <= i; ++j)
                {
                    s = a(i, j);
                    for (size_t k = first; k < j; ++k)
                        s -= l(i, k) * l(j, k) * d[k];
                    if (j < i)
                        l(i, j) = s / d[j];
                }
                d[i] = s;
                const bool whole = kind == 4 || kind == 5 || ((kind == 8 || kind == 9) && first == 0);
                R exact = whole ? 0 : 1e-9L * scale * (1 + scale / std::min(dmin, scale));
                if (fabsl(s) < exact)
                    sure = false;
                if (semi && s == 0)
                    first = i + 1, dmin = 1e300L;
                else if (s <= 0)
                    bad = i;
                else
                    dmin = std::min(dmin, s);
                if (!sure)
                    break;
            }
            if (!sure)
                continue;
            c.token(fmt("%zu", bad));
            if (ok != (bad == m) || Q.is_spd() != ok)
                c.violate("wrong-verdict", "says %s (is_spd %d), the first non-positive pivot is %zu of %zu", ok ? "positive definite" : "not", int(Q.is_spd()),
                    bad + 1, m);
            if (ok && first != 0)
            {
                c.probe("semidefinite");
                continue; // no root to be had from it
            }
            if (ok)
            {
                c.probe("definite");
                auto M = Q.sqrt();
                for (size_t i = 0; i < m; ++i)
                    for (size_t j = 0; j < m; ++j)
                    {
                        R s = 0;
                        for (size_t k = 0; k < m; ++k)
                            s += R(M(k, i)) * R(M(k, j));
                        s /= u[i] * u[j];
                        if (!(fabsl(s - a(i, j)) <= 1e-11L * scale * R(m)))
                            c.violate("wrong-root", "the root does not reproduce element (%zu,%zu): %.12Lg, matrix %.12Lg", i, j, s, a(i, j));
                        if (i > j && M(i, j) != 0.)
                            c.violate("wrong-root", "the root is not upper triangular");
                    }
                continue;
            }
            c.probe("not-definite");
            const size_t start = Q.p.first, stop = Q.p.second;
            if (start != first || stop != bad + 1)
                c.violate("wrong-rows", "reported rows [%zu, %zu), the first rows that prove it are [%zu, %zu)", start, stop, first, bad + 1);
            if (!(start < stop && stop <= m))
                c.violate("wrong-rows", "reported rows [%zu, %zu) of %zu", start, stop, m);
            if (st.i(3) != 0 && maxrow >= stop)
                c.violate("looked-elsewhere", "looked at row %zu, stopped at row %zu", maxrow, stop);
            double ep = Q.witness();
            const R w = u[stop - 1];
            R quad = 0, vs = 0;
            for (size_t i = start; i < stop; ++i)
                for (size_t j = start; j < stop; ++j)
                {
                    const R x = R(Q.v(i)) * u[i] / w * (R(Q.v(j)) * u[j] / w) * a(i, j);
                    quad += x;
                    vs += fabsl(x);
                }
            if (vs > 1e7L * scale)
                continue;
            R tol = 1e-10L * (vs + scale);
            if (!(ep >= 0) || !(fabsl(quad + R(ep) / w / w) <= tol))
                c.violate("wrong-witness", "reported %.12Lg, the witness gives %.12Lg on rows [%zu, %zu)", R(ep) / w / w, -quad, start, stop);
            bool zero = true;
            for (size_t i = start; i < stop; ++i)
                zero = zero && Q.v(i) == 0.;
            if (zero)
                c.violate("wrong-witness", "the witness is zero");
            // the quadratic form of another symmetric matrix, upper part only
            Arr P = xt::zeros<double>({m, m});
            R want = 0;
            for (size_t i = 0; i < m; ++i)
                for (size_t j = i; j < m; ++j)
                {
                    P(i, j) = q.normal();
                    P(j, i) = P(i, j);
                }
            for (size_t i = start; i < stop; ++i)
                for (size_t j = start; j < stop; ++j)
                    want += R(Q.v(i)) * R(Q.v(j)) * R(P(i, j));
            double got = Q.sym_quad(P);
            R vv = 0;
            for (size_t i = start; i < stop; ++i)
                vv += R(Q.v(i)) * R(Q.v(i));
            if (!(fabsl(want - R(got)) <= 1e-10L * (1 + vv) * R(m)))
                c.violate("wrong-form", "quadratic form %.12g, expected %.12Lg", got, want);
            if (q.p(0.3))
            { // asking twice changes nothing
                double e2 = Q.witness();
                if (memcmp(&e2, &ep, 8) != 0)
                    c.violate("wrong-witness", "asked again, the witness gives %.17g, before %.17g", e2, ep);
            }
        }
    }
};

int main(int argc, char** argv)
{
    LmiWorld w;
    return sim_main(argc, argv, w);
}
