// World "e2e": whole searches, region + driver + oracle, with faults on the way: queries that
// fail before or after the oracle saw them, cuts delivered again later, budget stops, regions
// restored from snapshots, failing allocations, other searchers that share the best value.
// The optimum of every problem is known by construction or from an exact reference.
#include "alloc.hpp"
#include "core.hpp"
#include "la.hpp"
#include "problem.hpp"
#include <deque>
#include <ellcpp/cut_config.hpp>
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/ell1d.hpp>
#include <ellcpp/ell_stable.hpp>
#include <ellcpp/oracles/cycle_ratio_oracle.hpp>
#include <ellcpp/oracles/lmi_old_oracle.hpp>
#include <ellcpp/oracles/lmi_oracle.hpp>
#include <ellcpp/oracles/lowpass_oracle.hpp>
#include <ellcpp/oracles/optscaling_oracle.hpp>
#include <ellcpp/oracles/profit_oracle.hpp>
#include <lsq_corr_ell.cpp>
#include <memory>

using namespace sim;
using V = std::vector<double>;
struct Lost
{
};

static Arr arr(const V& v)
{
    Arr a = xt::zeros<double>({v.size()});
    for (size_t i = 0; i < v.size(); ++i)
        a(i) = v[i];
    return a;
}
static V vec(const Arr& a) { return {a.begin(), a.end()}; }
static double nrm(const V& v)
{
    double s = 0;
    for (double x : v)
        s += x * x;
    return std::sqrt(s);
}
static double dotp(const V& a, const V& b)
{
    double s = 0;
    for (size_t i = 0; i < a.size(); ++i)
        s += a[i] * b[i];
    return s;
}
static V randdir(Rng& q, size_t n)
{
    V v(n);
    do
        for (auto& x : v)
            x = q.normal();
    while (nrm(v) < 1e-2);
    const double s = nrm(v);
    for (auto& x : v)
        x /= s;
    return v;
}
// random orthogonal matrix, rows
static std::vector<V> ortho(Rng& q, size_t m)
{
    std::vector<V> U;
    while (U.size() < m)
    {
        V v = randdir(q, m);
        for (int rep = 0; rep < 2; ++rep)
            for (auto& u : U)
            {
                const double d = dotp(u, v);
                for (size_t i = 0; i < m; ++i)
                    v[i] -= d * u[i];
            }
        const double s = nrm(v);
        if (s < 1e-3)
            continue;
        for (auto& x : v)
            x /= s;
        U.push_back(v);
    }
    return U;
}
// U' D U with D given by element
static Arr congr(const std::vector<V>& W, const std::function<double(size_t, size_t)>& D)
{
    const size_t m = W.size();
    Arr a = xt::zeros<double>({m, m});
    for (size_t i = 0; i < m; ++i)
        for (size_t j = 0; j <= i; ++j)
        {
            double s = 0;
            for (size_t p = 0; p < m; ++p)
                for (size_t r = 0; r < m; ++r)
                    s += W[p][i] * D(p, r) * W[r][j];
            a(i, j) = a(j, i) = s;
        }
    return a;
}
// solves A x = b (Gauss); false when singular
static bool gauss(std::vector<V> A, V b, V& x)
{
    const size_t n = b.size();
    for (size_t k = 0; k < n; ++k)
    {
        size_t p = k;
        for (size_t i = k + 1; i < n; ++i)
            if (std::fabs(A[i][k]) > std::fabs(A[p][k]))
                p = i;
        if (std::fabs(A[p][k]) < 1e-11)
            return false;
        std::swap(A[p], A[k]);
        std::swap(b[p], b[k]);
        for (size_t i = k + 1; i < n; ++i)
        {
            const double f = A[i][k] / A[k][k];
            for (size_t j = k; j < n; ++j)
                A[i][j] -= f * A[k][j];
            b[i] -= f * b[k];
        }
    }
    x.assign(n, 0.);
    for (size_t k = n; k-- > 0;)
    {
        double s = b[k];
        for (size_t j = k + 1; j < n; ++j)
            s -= A[k][j] * x[j];
        x[k] = s / A[k][k];
    }
    return true;
}
// min c.x s.t. rows A x <= b, by its vertices; false when there is none
static bool lp(const std::vector<V>& A, const V& b, const V& c, V& best)
{
    const size_t n = c.size(), m = b.size();
    std::vector<size_t> ix(n);
    for (size_t i = 0; i < n; ++i)
        ix[i] = i;
    bool found = false;
    double fb = 0;
    while (true)
    {
        std::vector<V> B;
        V r, x;
        for (size_t i : ix)
        {
            B.push_back(A[i]);
            r.push_back(b[i]);
        }
        if (gauss(B, r, x))
        {
            const double f = dotp(c, x);
            if (!found || f < fb)
            {
                bool ok = true;
                for (size_t i = 0; i < m && ok; ++i)
                    ok = dotp(A[i], x) <= b[i] + 1e-9 * (1 + std::fabs(b[i]) + nrm(x));
                if (ok)
                {
                    found = true;
                    fb = f;
                    best = x;
                }
            }
        }
        size_t k = n;
        while (k-- > 0)
            if (ix[k] + (n - k) < m)
                break;
        if (k == size_t(-1))
            return found;
        ++ix[k];
        for (size_t j = k + 1; j < n; ++j)
            ix[j] = ix[j - 1] + 1;
    }
}

// ------------------------------------------------------------ what a query answers
struct Ans
{
    bool cut = true, shrunk = false, more = false, parallel = false;
    V g, x0; // x0: the point a discrete oracle looked at
    double b0 = 0, b1 = 0;
};
static Ans from(const std::tuple<Arr, double>& c)
{
    Ans a;
    a.g = vec(std::get<0>(c));
    a.b0 = std::get<1>(c);
    return a;
}

struct Goal
{
    enum Kind
    {
        feas,
        opt,
        disc,
        bis
    } kind = opt;
    size_t n = 2;
    V x0;           // start
    double R = 1;   // radius of the initial region
    double t0 = 0;  // best value at the start
    double topt = 0;
    double dir = -1;    // -1: smaller is better, +1: larger
    double scale = 1;   // of the values
    double eps = 1e-8;  // rounding of the values
    bool judged = true; // whether the optimum can be claimed (known findings apart)
    virtual ~Goal() { }
    virtual Ans ask(const V& x, double& t, bool retry) = 0;
    // value of the point by independent means; false when it is not admissible
    virtual bool value(const V& x, double& f) const = 0;
    // radius of a ball of points within reach that are all admissible and better than t
    virtual double inrad(double t) const = 0;
    double gap(double t) const { return dir < 0 ? t - topt : topt - t; }
};
static double theta_rad(double gap, double span, double r) { return gap <= 0 ? 0. : r * std::min(1., gap / span); }

// ---- linear matrix inequalities with a known set: an ellipsoid (arrow matrix) and a polytope (diagonal)
struct LmiSet
{
    size_t n;
    Mats Fa, Fp;
    Arr Ba, Bp;
    std::vector<V> Li, A; // ellipsoid |Li (x - c)| <= 1, polytope A x <= b
    V c, b;
    double r; // ball around c inside both
    std::vector<V> Linv() const
    { // inverse of Li, by columns
        std::vector<V> cols;
        for (size_t k = 0; k < n; ++k)
        {
            V e(n, 0.), x;
            e[k] = 1;
            gauss(Li, e, x);
            cols.push_back(x);
        }
        return cols;
    }
    LmiSet(Rng& q, size_t nn)
        : n(nn)
        , c(nn)
    {
        for (auto& v : c)
            v = q.u(-1.5, 1.5);
        const auto U = ortho(q, n);
        double fro = 0;
        for (size_t i = 0; i < n; ++i)
        {
            V row = U[i];
            const double s = 1 / q.u(0.4, 2.);
            for (auto& x : row)
                x *= s;
            fro += s * s;
            Li.push_back(row);
        }
        r = 0.9 / std::sqrt(fro);
        const auto W = ortho(q, n + 1);
        auto lc = [&](size_t i) { return dotp(Li[i], c); };
        for (size_t k = 0; k < n; ++k)
            Fa.push_back(congr(W, [&](size_t i, size_t j) { return i == n && j < n ? -Li[j][k] : j == n && i < n ? -Li[i][k] : 0.; }));
        Ba = congr(W, [&](size_t i, size_t j) { return i == j ? 1. : i == n ? -lc(j) : j == n ? -lc(i) : 0.; });
        for (size_t k = 0; k < 2 * n + 1; ++k)
        {
            V a = k < 2 * n ? V(n, 0.) : randdir(q, n);
            if (k < 2 * n)
                a[k / 2] = k % 2 ? -1 : 1;
            const double s = q.u(0.5, 2);
            for (auto& x : a)
                x *= s;
            b.push_back(dotp(a, c) + nrm(a) * q.u(1.05, 4) * r);
            A.push_back(a);
        }
        const auto Z = ortho(q, A.size());
        for (size_t k = 0; k < n; ++k)
            Fp.push_back(congr(Z, [&](size_t i, size_t j) { return i == j ? A[i][k] : 0.; }));
        Bp = congr(Z, [&](size_t i, size_t j) { return i == j ? b[i] : 0.; });
    }
    double ell_out(const V& x) const
    {
        V w(n);
        for (size_t i = 0; i < n; ++i)
            w[i] = dotp(Li[i], x) - dotp(Li[i], c);
        return nrm(w) - 1;
    }
    double poly_out(const V& x) const
    {
        double m = -1e300;
        for (size_t i = 0; i < A.size(); ++i)
            m = std::max(m, (dotp(A[i], x) - b[i]) / nrm(A[i]));
        return m;
    }
};
template <typename O>
struct LmiOpt : Goal
{ // linear objective over one of the two sets
    LmiSet s;
    bool poly;
    V o, xs;
    O om;
    double span;
    LmiOpt(Rng q, size_t nn, bool p)
        : s(q, nn)
        , poly(p)
        , o(randdir(q, nn))
        , om(p ? s.Fp : s.Fa, p ? s.Bp : s.Ba)
    {
        n = nn;
        if (poly)
        {
            if (!lp(s.A, s.b, o, xs))
                throw EndRun {};
        }
        else
        { // x = c + Li^-1 u, |u| <= 1
            const auto C = s.Linv();
            V u(n);
            for (size_t k = 0; k < n; ++k)
                u[k] = dotp(C[k], o); // (Li^-T o)_k: column k of Li^-1 times o
            const double l = nrm(u);
            xs = s.c;
            for (size_t k = 0; k < n; ++k)
                for (size_t i = 0; i < n; ++i)
                    xs[i] -= C[k][i] * u[k] / l;
        }
        topt = dotp(o, xs);
        span = dotp(o, s.c) + s.r - topt;
        x0 = s.c;
        const auto d = randdir(q, n);
        for (size_t i = 0; i < n; ++i)
            x0[i] += 2 * d[i];
        double dist = 0;
        for (size_t i = 0; i < n; ++i)
            dist += (x0[i] - xs[i]) * (x0[i] - xs[i]);
        R = std::max(2 + s.r, std::sqrt(dist)) + 0.3;
        t0 = q.p(0.5) ? 1e100 : topt + span * q.u(0.5, 3);
        scale = 1 + span;
    }
    Ans ask(const V& x, double& t, bool) override
    {
        const double f = dotp(o, x), d = f - t;
        if (d > 0)
        {
            Ans a;
            a.g = o;
            a.b0 = d;
            return a;
        }
        if (auto c = om(arr(x)))
            return from(*c);
        t = f;
        Ans a;
        a.g = o;
        a.shrunk = true;
        return a;
    }
    bool value(const V& x, double& f) const override
    {
        f = dotp(o, x);
        return (poly ? s.poly_out(x) : s.ell_out(x)) <= 1e-7;
    }
    double inrad(double t) const override { return theta_rad(gap(t), span, s.r); }
};
template <typename O>
struct LmiFeas : Goal
{ // a point in both sets
    LmiSet s;
    O a, p;
    int turn = 0;
    LmiFeas(Rng q, size_t nn)
        : s(q, nn)
        , a(s.Fa, s.Ba)
        , p(s.Fp, s.Bp)
    {
        kind = feas;
        n = nn;
        x0 = s.c;
        const auto d = randdir(q, n);
        const double far = q.u(0.5, 20);
        for (size_t i = 0; i < n; ++i)
            x0[i] += far * d[i];
        R = far + s.r + q.u(0.01, 5);
    }
    Ans ask(const V& x, double&, bool) override
    {
        for (int k = 0; k < 2; ++k)
        {
            turn ^= 1;
            if (auto c = turn ? a(arr(x)) : p(arr(x)))
                return from(*c);
        }
        Ans r;
        r.cut = false;
        return r;
    }
    bool value(const V& x, double& f) const override
    {
        f = 0;
        return s.ell_out(x) <= 1e-7 && s.poly_out(x) <= 1e-7;
    }
    double inrad(double) const override { return s.r; }
};
struct Lmi0Feas : Goal
{ // a cone
    std::vector<V> A;
    Mats F;
    std::unique_ptr<lmi0_oracle> om;
    double r;
    explicit Lmi0Feas(Rng q, size_t nn)
    {
        kind = feas;
        n = nn;
        const V c = randdir(q, n);
        r = q.u(0.02, 0.3);
        const size_t m = n + 2;
        while (A.size() < m)
        {
            V a = randdir(q, n);
            const double d = dotp(a, c);
            if (std::fabs(d) < r)
                continue;
            const double f = (d < 0 ? -1 : 1) * q.u(1, 3);
            for (auto& x : a)
                x *= f;
            A.push_back(a);
        }
        r *= 0.999;
        const auto Z = ortho(q, m);
        for (size_t k = 0; k < n; ++k)
            F.push_back(congr(Z, [&](size_t i, size_t j) { return i == j ? A[i][k] : 0.; }));
        om = std::make_unique<lmi0_oracle>(F);
        x0 = c;
        const auto d = randdir(q, n);
        const double far = q.u(0.5, 8);
        for (size_t i = 0; i < n; ++i)
            x0[i] += far * d[i];
        R = far + r + q.u(0.01, 2);
    }
    Ans ask(const V& x, double&, bool) override
    {
        if (auto c = (*om)(arr(x)))
            return from(*c);
        Ans a;
        a.cut = false;
        return a;
    }
    bool value(const V& x, double& f) const override
    {
        f = 0;
        for (auto& a : A)
            if (dotp(a, x) < -1e-7 * nrm(a) * nrm(x))
                return false;
        return true;
    }
    double inrad(double) const override { return r; }
};
// ---- smallest spectral norm, by bisection over a threshold
struct QmiBis : Goal
{
    Mats F;
    Arr F0;
    V c;
    double rho, smax = 0;
    std::unique_ptr<qmi_oracle> om;
    explicit QmiBis(Rng q, size_t nn)
    {
        kind = bis;
        n = nn;
        c.resize(n);
        for (auto& v : c)
            v = q.u(-1, 1);
        const size_t cols = size_t(q.i(1, 3)), rows = n + 1 + (cols - 1);
        rho = q.u(0.1, 1);
        V sig(cols, 0.);
        for (size_t j = 1; j < cols; ++j)
            smax = std::max(smax, sig[j] = q.u(0, 1.2));
        const auto P = ortho(q, rows), W = ortho(q, cols);
        auto rot = [&](const std::function<double(size_t, size_t)>& N) {
            Arr a = xt::zeros<double>({rows, cols});
            for (size_t i = 0; i < rows; ++i)
                for (size_t j = 0; j < cols; ++j)
                    for (size_t k = 0; k < rows; ++k)
                        for (size_t l = 0; l < cols; ++l)
                            a(i, j) += P[k][i] * N(k, l) * W[l][j];
            return a;
        };
        // N(x) = [x - c; rho | sigma], F(x) = F0 - sum x_k F_k
        F0 = rot([&](size_t i, size_t j) { return j == 0 ? (i < n ? -c[i] : i == n ? rho : 0.) : (i == n + j ? sig[j] : 0.); });
        for (size_t k = 0; k < n; ++k)
            F.push_back(rot([&](size_t i, size_t j) { return i == k && j == 0 ? -1. : 0.; }));
        om = std::make_unique<qmi_oracle>(F, F0);
        topt = std::max(rho * rho, smax * smax);
        x0 = V(n);
        for (auto& v : x0)
            v = q.u(-1, 1);
        R = 8;
        t0 = 16;
    }
    Ans ask(const V& x, double& t, bool) override
    {
        om->update(t);
        if (auto c1 = (*om)(arr(x)))
            return from(*c1);
        Ans a;
        a.cut = false;
        return a;
    }
    bool value(const V& x, double& f) const override
    {
        double d = rho * rho;
        for (size_t i = 0; i < n; ++i)
            d += (x[i] - c[i]) * (x[i] - c[i]);
        f = std::max(d, smax * smax);
        return true;
    }
    double inrad(double t) const override { return t <= topt ? 0. : std::min(0.5, std::sqrt(t - rho * rho)); }
};
// ---- profit
struct Profit : Goal
{
    double p, A, k, e3 = 0;
    V a, v, e, ys;
    double log_k;
    std::unique_ptr<profit_oracle> pp;
    std::unique_ptr<profit_rb_oracle> pr;
    std::unique_ptr<profit_q_oracle> pq;
    double profit(const V& y) const
    {
        double s = std::log((p - e3) * A);
        for (int i = 0; i < 2; ++i)
            s += (a[i] + (y[i] > 0 ? -e[i] : e[i])) * y[i];
        return std::exp(s) - (v[0] + e3) * std::exp(y[0]) - (v[1] + e3) * std::exp(y[1]);
    }
    // maximum over y1 (and y0) by golden section; the profit is quasi-concave
    static double golden(const std::function<double(double)>& f, double lo, double hi, double& at)
    {
        const double w = 0.61803398874989484820;
        double x1 = hi - w * (hi - lo), x2 = lo + w * (hi - lo), f1 = f(x1), f2 = f(x2);
        for (int i = 0; i < 90; ++i)
            if (f1 > f2)
            {
                hi = x2;
                x2 = x1;
                f2 = f1;
                x1 = hi - w * (hi - lo);
                f1 = f(x1);
            }
            else
            {
                lo = x1;
                x1 = x2;
                f1 = f2;
                x2 = lo + w * (hi - lo);
                f2 = f(x2);
            }
        at = (lo + hi) / 2;
        return f(at);
    }
    Profit(Rng q, const std::string& which)
        : a {q.u(0.05, 0.45), q.u(0.05, 0.45)}
        , v {q.u(2, 30), q.u(2, 30)}
        , e {0., 0.}
    {
        n = 2;
        dir = 1;
        p = q.u(10, 40);
        A = q.u(15, 60);
        k = q.u(3, 60);
        const Arr aa = arr(a), vv = arr(v);
        if (which == "pp")
            pp = std::make_unique<profit_oracle>(p, A, k, aa, vv);
        else if (which == "pr")
        {
            e = {q.u(0, .03), q.u(0, .03)};
            e3 = q.u(0, 1);
            pr = std::make_unique<profit_rb_oracle>(p, A, k, aa, vv, arr(e), e3);
        }
        else
        {
            kind = disc;
            judged = false; // known finding profit-q-offset: it cuts off better points
            pq = std::make_unique<profit_q_oracle>(p, A, k, aa, vv);
        }
        log_k = std::log(k - e3);
        ys = {0., 0.};
        auto over1 = [&](double y0) {
            double at;
            return golden([&](double y1) { return profit({y0, y1}); }, -6, 9, at);
        };
        topt = golden(over1, -6, std::min(9., log_k), ys[0]);
        if (over1(log_k) >= topt)
        {
            ys[0] = log_k;
            topt = over1(log_k);
        }
        golden([&](double y1) { return profit({ys[0], y1}); }, -6, 9, ys[1]);
        if (!(topt > 1))
            throw EndRun {};
        scale = topt;
        eps = 1e-7 * (1 + std::exp(std::log((p - e3) * A) + a[0] * ys[0] + a[1] * ys[1]));
        x0 = {q.u(-1, 1), q.u(-1, 1)};
        R = std::hypot(ys[0] - x0[0], ys[1] - x0[1]) + q.u(1.1, 4);
        t0 = 0;
    }
    Ans ask(const V& x, double& t, bool retry) override
    {
        if (pq)
        {
            const auto r = (*pq)(arr(x), t, retry);
            Ans s = from(std::get<0>(r));
            s.x0 = vec(std::get<1>(r));
            s.shrunk = std::get<2>(r);
            s.more = std::get<3>(r);
            return s;
        }
        const auto r = pp ? (*pp)(arr(x), t) : (*pr)(arr(x), t);
        Ans s = from(std::get<0>(r));
        s.shrunk = std::get<1>(r);
        return s;
    }
    bool value(const V& x, double& f) const override
    {
        f = profit(x);
        return x[0] <= log_k + 1e-9;
    }
    double inrad(double t) const override
    {
        if (t >= topt)
            return 0.;
        // log(t + v.e^y) - log(pA) - a.y is convex in y with slope at most 1 + |a|
        const double c = (v[0] + e3) * std::exp(ys[0]) + (v[1] + e3) * std::exp(ys[1]);
        const double d = std::log((topt + c) / (t + c));
        return std::min(0.5, 0.5 * d / (1 + std::hypot(a[0] + e[0], a[1] + e[1])));
    }
};
// ---- filter design: a linear program
struct Filter : Goal
{
    Arr Ap, As, Anr;
    double L, U, r = 0, span = 1;
    V xc;
    std::unique_ptr<lowpass_oracle> om;
    static V row(const Arr& a, size_t i)
    {
        V v;
        for (size_t j = 0; j < a.shape()[1]; ++j)
            v.push_back(a(i, j));
        return v;
    }
    Filter(Rng q, size_t nn)
    {
        n = nn;
        auto table = [&](size_t rows, double lo, double hi) {
            Arr a = xt::zeros<double>({rows, n});
            for (size_t i = 0; i < rows; ++i)
            {
                const double w = lo + (hi - lo) * (double(i) + q.u(0, 0.9)) / double(rows);
                for (size_t j = 0; j < n; ++j)
                    a(i, j) = j ? 2. * std::cos(w * M_PI * double(j)) : 1.;
            }
            return a;
        };
        Ap = table(size_t(q.i(2, 4)), 0, q.u(0.1, 0.3));
        As = table(size_t(q.i(2, 5)), q.u(0.5, 0.7), 1);
        Anr = table(size_t(q.i(1, 3)), .3, .5);
        const double del = q.u(0.05, 0.3);
        L = 1 - del;
        U = 1 + del;
        om = std::make_unique<lowpass_oracle>(Ap, As, Anr, L, U);
        // variables x and one more: margin, or stop-band level
        std::vector<V> M, S;
        V mb, sb;
        auto add = [&](const V& g, double b, bool level) { // g.x <= b (+ s)
            V m = g, s = g;
            m.push_back(level ? 0. : nrm(g));
            s.push_back(level ? -1. : 0.);
            if (!level)
            {
                M.push_back(m);
                mb.push_back(b);
            }
            S.push_back(s);
            sb.push_back(b);
        };
        auto neg = [](V g) {
            for (auto& x : g)
                x = -x;
            return g;
        };
        V e0(n, 0.);
        e0[0] = -1;
        add(e0, 0, false);
        for (size_t i = 0; i < Ap.shape()[0]; ++i)
        {
            add(row(Ap, i), U, false);
            add(neg(row(Ap, i)), -L, false);
        }
        for (size_t i = 0; i < As.shape()[0]; ++i)
        {
            add(row(As, i), 0, true);
            add(neg(row(As, i)), 0, false);
        }
        for (size_t i = 0; i < Anr.shape()[0]; ++i)
            add(neg(row(Anr, i)), 0, false);
        // largest margin: max d, d <= 1
        V lim(n + 1, 0.);
        lim[n] = 1;
        M.push_back(lim);
        mb.push_back(1);
        V c(n + 1, 0.), xm, xo;
        c[n] = -1;
        if (!lp(M, mb, c, xm) || xm[n] < 0.01)
            throw EndRun {};
        c[n] = 1;
        if (!lp(S, sb, c, xo))
            throw EndRun {};
        topt = xo[n];
        r = 0.9 * xm[n];
        xc.assign(xm.begin(), xm.begin() + long(n));
        double fmax = 0;
        for (size_t i = 0; i < As.shape()[0]; ++i)
            fmax = std::max(fmax, dotp(row(As, i), xc) + r * nrm(row(As, i)));
        span = fmax - topt;
        x0 = V(n, 0.);
        double d1 = 0, d2 = 0;
        for (size_t i = 0; i < n; ++i)
        {
            d1 += xc[i] * xc[i];
            d2 += xo[i] * xo[i];
        }
        R = std::max(std::sqrt(d1) + r, std::sqrt(d2)) + q.u(0.1, 3);
        t0 = fmax * q.u(0.5, 3);
        if (t0 <= topt + 1e-3)
            t0 = topt + span;
    }
    Ans ask(const V& x, double& t, bool) override
    {
        const auto rr = (*om)(arr(x), t);
        const auto& c = std::get<0>(rr);
        Ans a;
        a.g = vec(std::get<0>(c));
        const V b = vec(std::get<1>(c));
        a.b0 = b[0];
        a.parallel = b.size() > 1;
        if (a.parallel)
            a.b1 = b[1];
        a.shrunk = std::get<1>(rr);
        return a;
    }
    bool value(const V& x, double& f) const override
    {
        f = -1e300;
        const double z = 1e-8 * (1 + nrm(x));
        bool ok = x[0] >= -z;
        for (size_t i = 0; i < Ap.shape()[0]; ++i)
        {
            const double y = dotp(row(Ap, i), x);
            ok = ok && y >= L - z && y <= U + z;
        }
        for (size_t i = 0; i < As.shape()[0]; ++i)
        {
            const double y = dotp(row(As, i), x);
            ok = ok && y >= -z;
            f = std::max(f, y);
        }
        for (size_t i = 0; i < Anr.shape()[0]; ++i)
            ok = ok && dotp(row(Anr, i), x) >= -z;
        return ok;
    }
    double inrad(double t) const override { return theta_rad(gap(t), span, r); }
};
// ---- correlation fitting in a common eigenbasis
struct Fit : Goal
{
    std::vector<V> Lam; // eigenvalues of the fit: Lam p
    V y, ps;
    Mats S;
    Arr Y;
    double r = 0, span = 1;
    bool lsq;
    std::unique_ptr<lsq_oracle> om;
    std::unique_ptr<mle_oracle> mom;
    Fit(Rng q, size_t nn, bool ls)
        : lsq(ls)
    {
        const size_t m = lsq ? nn + size_t(q.i(0, 2)) : nn; // eigenvalues
        const size_t np = nn;
        n = lsq ? np + 1 : np;
        for (size_t i = 0; i < m; ++i)
        {
            V row(np);
            row[0] = 1;
            for (size_t k = 1; k < np; ++k)
                row[k] = q.u(-0.4, 0.4);
            Lam.push_back(row);
            y.push_back(q.u(0.4, 2.5));
        }
        const auto Z = ortho(q, m);
        for (size_t k = 0; k < np; ++k)
            S.push_back(congr(Z, [&](size_t i, size_t j) { return i == j ? Lam[i][k] : 0.; }));
        Y = congr(Z, [&](size_t i, size_t j) { return i == j ? y[i] : 0.; });
        double lmax = 0;
        for (auto& l : Lam)
            lmax = std::max(lmax, nrm(l));
        t0 = 1e100;
        if (lsq)
        {
            om = std::make_unique<lsq_oracle>(S, Y);
            std::vector<V> A;
            V b, c(np + 1, 0.), xo;
            for (size_t i = 0; i < m; ++i)
            {
                V g = Lam[i], h = Lam[i], z = Lam[i];
                for (size_t k = 0; k < np; ++k)
                {
                    h[k] = -h[k];
                    z[k] = -z[k];
                }
                g.push_back(-1);
                h.push_back(-1);
                z.push_back(0);
                A.push_back(g);
                b.push_back(y[i]);
                A.push_back(h);
                b.push_back(-y[i]);
                A.push_back(z);
                b.push_back(0);
            }
            c[np] = 1;
            if (!lp(A, b, c, xo))
                throw EndRun {};
            ps.assign(xo.begin(), xo.begin() + long(np));
            topt = xo[np] * xo[np];
            r = 0.5 / lmax; // around p = (1,0,..): all eigenvalues 1
            double worst = 0;
            for (size_t i = 0; i < m; ++i)
                worst = std::max(worst, std::fabs(1 - y[i]) + r * lmax);
            const double sc = worst * worst + r;
            span = sc + r - topt;
            x0 = V(n, 0.);
            x0[0] = 1 + q.u(-1, 1);
            x0[np] = q.u(0.5, 6);
            double d1 = (x0[0] - 1) * (x0[0] - 1) + (x0[np] - sc) * (x0[np] - sc), d2 = (x0[np] - topt) * (x0[np] - topt);
            for (size_t k = 0; k < np; ++k)
                d2 += (x0[k] - ps[k]) * (x0[k] - ps[k]);
            R = std::max(std::sqrt(d1) + r, std::sqrt(d2)) + q.u(0.1, 3);
        }
        else
        {
            mom = std::make_unique<mle_oracle>(S, Y);
            if (!gauss(Lam, y, ps) || nrm(ps) > 50)
                throw EndRun {};
            topt = double(m);
            double ymin = 1e9;
            for (double v : y)
            {
                topt += std::log(v);
                ymin = std::min(ymin, v);
            }
            r = 0.5 * ymin / lmax;
            span = 0.307 * double(m);
            x0 = ps;
            const auto d = randdir(q, n);
            const double far = q.u(0.2, 3);
            for (size_t i = 0; i < n; ++i)
                x0[i] += far * d[i];
            R = far + r + q.u(0.1, 2);
            eps = 1e-7;
        }
    }
    Ans ask(const V& x, double& t, bool) override
    {
        const auto rr = om ? (*om)(arr(x), t) : (*mom)(arr(x), t);
        Ans a = from(std::get<0>(rr));
        a.shrunk = std::get<1>(rr);
        return a;
    }
    bool value(const V& x, double& f) const override
    {
        bool ok = true;
        f = 0;
        double worst = 0;
        for (size_t i = 0; i < y.size(); ++i)
        {
            double l = 0;
            for (size_t k = 0; k < Lam[i].size(); ++k)
                l += Lam[i][k] * x[k];
            ok = ok && l >= -1e-8;
            worst = std::max(worst, std::fabs(l - y[i]));
            if (!lsq)
            {
                ok = ok && l <= 2 * y[i] + 1e-8;
                f += std::log(std::max(l, 1e-300)) + y[i] / l;
            }
        }
        if (lsq)
        {
            f = x[n - 1];
            ok = ok && worst * worst <= f + 1e-7 * (1 + f);
        }
        return ok;
    }
    double inrad(double t) const override { return theta_rad(gap(t), span, r); }
};
// ---- networks: all cycles are known
struct Net : Goal
{
    using BG = boost::adjacency_list<boost::vecS, boost::vecS, boost::directedS, boost::no_property, boost::property<boost::edge_id_tag_t, size_t>>;
    struct Cost
    {
        const Net* w;
        template <typename E>
        double operator()(const E& e) const
        {
            return w->cost[boost::get(boost::id_tag, *w->g, e)];
        }
    };
    struct Time
    {
        const Net* w;
        template <typename E>
        double operator()(const E& e) const
        {
            return w->time[boost::get(boost::id_tag, *w->g, e)];
        }
    };
    struct Cyc
    {
        double c, p, q, t;
    };
    size_t N;
    V cost, time, u;
    std::vector<std::pair<size_t, size_t>> ed;
    std::vector<Cyc> cyc;
    std::unique_ptr<G> g;
    bool os;
    std::unique_ptr<optscaling_oracle<G, V, Cost>> so;
    std::unique_ptr<cycle_ratio_oracle<G, V, Cost, Time>> ro;
    V xs;
    void walk(size_t s, size_t v, std::vector<char>& on, double c, double p, double q, double t)
    {
        for (size_t i = 0; i < ed.size(); ++i)
        {
            if (ed[i].first != v)
                continue;
            const size_t w = ed[i].second;
            const bool up = ed[i].first < ed[i].second;
            const double c2 = c + (os ? (up ? cost[i] : -cost[i]) : cost[i]), p2 = p + (up ? 1 : 0), q2 = q + (up ? 0 : 1), t2 = t + time[i];
            if (w == s)
                cyc.push_back({c2, p2, q2, t2});
            else if (w > s && !on[w])
            {
                on[w] = 1;
                walk(s, w, on, c2, p2, q2, t2);
                on[w] = 0;
            }
        }
    }
    Net(Rng q, bool o)
        : N(size_t(q.i(3, 5)))
        , os(o)
    {
        BG b(N);
        auto edge = [&](size_t i, size_t j) {
            boost::add_edge(i, j, boost::property<boost::edge_id_tag_t, size_t>(cost.size()), b);
            ed.push_back({i, j});
            cost.push_back(q.u(-2, 2));
            time.push_back(q.p(0.5) ? 1. : q.u(0.5, 3));
        };
        for (size_t i = 0; i < N; ++i)
        {
            edge(i, (i + 1) % N);
            edge((i + 1) % N, i);
            if (q.p(0.4))
                edge(i, (i + 2) % N);
        }
        g = std::make_unique<G>(std::move(b));
        u.assign(N, 0.);
        for (size_t s = 0; s < N; ++s)
        {
            std::vector<char> on(N, 0);
            on[s] = 1;
            walk(s, s, on, 0, 0, 0, 0);
        }
        if (os)
        { // p x0 - q x1 >= c on every cycle; smallest x0 - x1
            n = 2;
            std::vector<V> A;
            V bb;
            for (auto& k : cyc)
            {
                A.push_back({-k.p, k.q});
                bb.push_back(-k.c);
            }
            if (!lp(A, bb, {1., -1.}, xs))
                throw EndRun {};
            topt = xs[0] - xs[1];
            so = std::make_unique<optscaling_oracle<G, V, Cost>>(*g, u, Cost {this});
            x0 = {xs[0] + 1 + q.u(-1, 1), xs[1] - 1 + q.u(-1, 1)};
            R = std::hypot(2., 2.) + 1.5 + q.u(0.1, 5);
            t0 = 1e100;
        }
        else
        {
            n = 1;
            dir = 1;
            topt = 1e300;
            for (auto& k : cyc)
                topt = std::min(topt, k.c / k.t);
            ro = std::make_unique<cycle_ratio_oracle<G, V, Cost, Time>>(*g, u, Cost {this}, Time {this});
            x0 = {topt + q.u(-3, 3)};
            R = 3.5 + q.u(0.1, 20);
            t0 = -1e100;
        }
    }
    Ans ask(const V& x, double& t, bool) override
    {
        Ans a;
        if (os)
        {
            const auto r = (*so)(arr(x), t);
            a = from(std::get<0>(r));
            a.shrunk = std::get<1>(r);
        }
        else
        {
            const auto r = (*ro)(x[0], t);
            a.g = {std::get<0>(std::get<0>(r))};
            a.b0 = std::get<1>(std::get<0>(r));
            a.shrunk = std::get<1>(r);
        }
        return a;
    }
    bool value(const V& x, double& f) const override
    {
        f = os ? x[0] - x[1] : x[0];
        for (auto& k : cyc)
            if (os ? k.p * x[0] - k.q * x[1] < k.c - 1e-8 : k.c - x[0] * k.t < -1e-8)
                return false;
        return true;
    }
    double inrad(double t) const override
    {
        const double d = gap(t);
        if (os) // the ball of radius 1 around xs + (1,-1)
            return theta_rad(d, 2 + std::sqrt(2.), 1.);
        return d <= 0 ? 0. : std::min(0.5, d) / 2;
    }
};

static std::unique_ptr<Goal> make(const std::string& k, Rng q, size_t n)
{
    if (k == "lmi-ell")
        return std::make_unique<LmiOpt<lmi_oracle>>(q, n, false);
    if (k == "lmi-poly")
        return std::make_unique<LmiOpt<lmi_oracle>>(q, n, true);
    if (k == "old-ell")
        return std::make_unique<LmiOpt<lmi_old_oracle>>(q, n, false);
    if (k == "feas")
        return std::make_unique<LmiFeas<lmi_oracle>>(q, n);
    if (k == "feas-old")
        return std::make_unique<LmiFeas<lmi_old_oracle>>(q, n);
    if (k == "feas0")
        return std::make_unique<Lmi0Feas>(q, n);
    if (k == "qmi")
        return std::make_unique<QmiBis>(q, n);
    if (k[0] == 'p')
        return std::make_unique<Profit>(q, k);
    if (k == "low")
        return std::make_unique<Filter>(q, std::min<size_t>(n, 3));
    if (k == "lsq")
        return std::make_unique<Fit>(q, std::min<size_t>(n, 3), true);
    if (k == "mle")
        return std::make_unique<Fit>(q, n, false);
    return std::make_unique<Net>(q, k == "os");
}

// ------------------------------------------------------------ the region, seen from outside
struct Last
{ // the last cut that went in
    bool any = false;
    CUTStatus st = CUTStatus::success;
    double tsq = 0, gn = 1;
    double longest = 0; // longest axis of the region, at most
    bool spent = false;
};
struct Cut
{
    V g, x; // direction and the point it is about
    double b0, b1;
    bool parallel;
};
struct Spent
{ // the region is as thin as doubles can tell
};
constexpr double FINE = 1e-6;
struct Trail
{
    Last last;
    double R = 1;
    std::deque<Cut> seen;
    double t_at = 0; // best value when the last cut went in
    double* t = nullptr;
};
template <typename E>
struct Rec
{
    E e;
    Trail* tr;
    double grow = 0; // logarithm of a bound on the growth of the longest axis
    double shrink; // logarithm of the factor by which the volume radius must have shrunk
    // a prvalue: ell1d can be copied explicitly but neither moved nor returned
    static E dup(const E& x)
    {
        if constexpr (std::is_same<E, ell1d>::value)
            return E(x);
        else
            return x.copy();
    }
    Rec(const E& ee, Trail* t, double s, double w)
        : e(dup(ee))
        , tr(t)
        , grow(w)
        , shrink(s)
    {
    }
    Rec(const Rec&) = delete;
    auto xc() const { return e.xc(); }
    static V point(const Arr& a) { return vec(a); }
    static V point(double a) { return {a}; }
    template <typename X>
    std::tuple<CUTStatus, double> update(const std::tuple<X, double>& c)
    {
        const Cut k {point(std::get<0>(c)), point(e.xc()), std::get<1>(c), 0, false};
        return note(k, e.update(c));
    }
    std::tuple<CUTStatus, double> update(const std::tuple<Arr, Arr>& c)
    {
        const V b = vec(std::get<1>(c));
        const Cut k {point(std::get<0>(c)), point(e.xc()), b[0], b.size() > 1 ? b[1] : 0, b.size() > 1};
        if constexpr (std::is_same<E, ell1d>::value)
            abort();
        else
            return note(k, e.update(c));
    }
    // how long the longest axis can be: central cuts of copies, along each coordinate
    double longest() const
    {
        const size_t n = vsize(e.xc());
        double tr2 = 0;
        for (size_t i = 0; i < n; ++i)
        {
            E y(dup(e));
            if constexpr (std::is_same<E, ell1d>::value)
                tr2 += std::get<1>(y.update(std::make_tuple(1., 0.)));
            else
            {
                V d(n, 0.);
                d[i] = 1;
                tr2 += std::get<1>(y.update(std::make_tuple(arr(d), 0.)));
            }
        }
        return std::sqrt(std::max(0., tr2));
    }
    static size_t vsize(const Arr& a) { return a.size(); }
    static size_t vsize(double) { return 1; }
    std::tuple<CUTStatus, double> note(const Cut& k, const std::tuple<CUTStatus, double>& r)
    {
        const simalloc::Pause quiet;
        tr->last = {true, std::get<0>(r), std::get<1>(r), nrm(k.g), tr->R * std::exp(grow)};
        tr->t_at = *tr->t;
        if (std::get<0>(r) == CUTStatus::success && k.b0 >= 0)
        {
            const double n = double(k.g.size());
            shrink += k.g.size() == 1 ? std::log(2.) : 1 / (2 * n * (n + 1));
        }
        tr->seen.push_back(k);
        if (tr->seen.size() > 12)
            tr->seen.pop_front();
        if (std::get<0>(r) != CUTStatus::success)
            tr->last.longest = std::min(tr->last.longest, longest());
        else
        {
            const double n = double(k.g.size());
            if (n > 1)
                grow += 0.5 * std::log(n * n / (n * n - 1));
            const double h = std::sqrt(std::max(0., std::get<1>(r))) / tr->last.gn;
            if (!(h > FINE * tr->R * std::exp(grow)))
            { // the bound may be far too large: look
                if (!(h > FINE * longest()))
                {
                    tr->last.spent = true;
                    tr->last.longest = std::min(longest(), tr->R * std::exp(grow));
                    throw Spent {};
                }
            }
        }
        return r;
    }
    auto copy() const -> Rec { return Rec(e, tr, shrink, grow); }
    template <typename X>
    void set_xc(const X& x)
    {
        e.set_xc(x);
    }
};

struct E2eWorld : World
{
    Scenario gen(Rng& r, const std::string&, bool thorough) override
    {
        Scenario sc;
        sc.set("kind", r.pick({"lmi-ell", "lmi-poly", "old-ell", "feas", "feas-old", "feas0", "qmi", "pp", "pr", "pq", "low", "low", "lsq", "mle", "os", "ratio"}));
        sc.set("pseed", r.i(1, 1000000000));
        sc.set("n", r.p(0.03) ? r.i(5, 8) : r.i(2, 4));
        sc.set("space", r.p(0.85) ? "ell" : "stab");
        sc.set("vecstart", r.i(0, 1));
        sc.set("defer", r.i(0, 1));
        sc.set("tolexp", r.i(4, 10));
        const long ops = r.i(1, thorough ? 40 : 16);
        const double lossy = r.pick({0., 0.05, 0.2});
        for (long k = 0; k < ops; ++k)
        {
            const long z = r.i(0, 19);
            if (z < 9)
            {
                std::string l = fmt("run %ld", r.pick({1L, 2L, r.i(2, 12), r.i(5, 40)}));
                // queries of this slice that fail: before (b) or after (a) the oracle saw them, or an allocation (m)
                for (int j = 0; j < 2; ++j)
                    if (r.p(lossy * 3))
                        l += fmt(" %c%ld", r.pick({'a', 'b'}), r.i(1, 8));
                if (r.p(lossy))
                    l += fmt(" m%ld", r.i(1, 300));
                sc.add(l);
            }
            else if (z < 13)
                sc.add(fmt("late %ld", r.i(0, 11)));
            else if (z < 14)
                sc.add("snap");
            else if (z < 15)
                sc.add("restore");
            else if (z < 17)
                sc.add("copy");
            else if (z < 18)
                sc.add("defer");
            else
                sc.add(fmt("share %.6g", r.pick({r.u(0, 1), r.u(0, 0.01)})));
        }
        return sc;
    }

    struct Best
    { // what the oracle announced, whoever survived
        bool any = false;
        V x;
        double t = 0;
    };

    template <typename E>
    void search(const Scenario& sc, Ctx& c, Goal& G0, const E& start)
    {
        constexpr bool one = std::is_same<E, ell1d>::value;
        using X = std::conditional_t<one, double, Arr>;
        const bool stab = std::is_same<E, ell_stable>::value;
        const std::string kind = sc.s("kind");
        const size_t n = G0.n;
        // where a known finding may lose the optimum on the way, losing it is that finding: ell_stable
        // updates from two dimensions on (stable-update), discrete profit cuts (profit-q-offset);
        // claims are judged everywhere
        const char* excuse = stab && n >= 2 ? "stable-update" : !G0.judged ? "profit-q-offset" : nullptr;
        const double tol = std::pow(10., -double(sc.i("tolexp", 8)));
        auto lost = [&](const char* cls, const std::string& msg) {
            if (excuse)
            {
                c.known_finding(excuse);
                throw EndRun {};
            }
            c.violate(cls, "%s", msg.c_str());
        };
        Trail tr;
        double t = G0.t0;
        tr.t = &t;
        tr.R = G0.R;
        auto S = std::make_unique<Rec<E>>(start, &tr, 0., 0.);
        std::unique_ptr<Rec<E>> snap;
        Best best;
        std::pair<double, double> I {0., G0.t0};
        bool found = false, ended = false;
        V fx;
        auto pt = [](const X& x) -> V {
            if constexpr (one)
                return {x};
            else
                return vec(x);
        };
        auto xx = [](const V& v) -> X {
            if constexpr (one)
                return v[0];
            else
                return arr(v);
        };
        // a claim that this point has this value
        auto claim = [&](const V& x, double v, const char* who) {
            const simalloc::Pause quiet;
            ++c.checks;
            double f = 0;
            if (!G0.value(x, f))
                c.violate("claim-not-admissible", "%s: %s claims a point that violates a constraint", kind.c_str(), who);
            if (G0.kind != Goal::feas && std::fabs(f - v) > 10 * G0.eps * (1 + std::fabs(f)) && G0.kind != Goal::bis)
                c.violate("claim-wrong", "%s: %s claims %.12g for a point worth %.12g", kind.c_str(), who, v, f);
            if (G0.kind == Goal::bis && f > v + 1e-7 * (1 + v))
                c.violate("claim-wrong", "%s: %s claims norm below %.12g for a point with %.12g", kind.c_str(), who, v, f);
        };
        // the region must have room for every point better than tt
        auto room = [&](const Rec<E>& s, double tt, const char* when) {
            const simalloc::Pause quiet;
            ++c.checks;
            const double need = G0.inrad(tt), have = G0.R * std::exp(-s.shrink);
            if (need > have * (1 + 1e-6) + 1e-7 * G0.R)
                lost("no-progress", fmt("%s %s: best value %.12g (optimum %.12g) leaves a ball of radius %.3g of better points, but %s cuts leave the region no more than %.3g",
                    kind.c_str(), when, tt, G0.topt, need, "the accepted", have));
        };
        auto verdict = [&](CUTStatus st, double tsq, double gn, double tt, const char* when) {
            const simalloc::Pause quiet;
            ++c.checks;
            const double need = G0.inrad(tt);
            const double slack = 2 * FINE * std::min(tr.last.longest, S->longest());
            if (st == CUTStatus::nosoln && need > slack)
                lost("gave-up", fmt("%s %s: no solution, but a ball of radius %.3g is better than %.12g (optimum %.12g)", kind.c_str(), when, need, tt, G0.topt));
            const double h = std::sqrt(std::max(0., tsq)) / gn;
            if (st != CUTStatus::nosoln && need > h * (1 + 1e-6) + slack)
                lost("region-too-small", fmt("%s %s: half-width %.3g, but a ball of radius %.3g is better than %.12g (optimum %.12g)", kind.c_str(), when, h, need, tt, G0.topt));
        };
        long queries = 0, lose_a = 0, lose_b = 0, left = 0;
        std::vector<std::pair<char, long>> plan;
        auto query = [&](const X& x, double& tt, bool retry) {
            ++queries;
            for (auto& pr : plan)
                if (pr.first == 'b' && pr.second == queries)
                    throw Lost {};
            const double before = tt;
            Ans a = G0.ask(pt(x), tt, retry);
            if (a.shrunk)
            {
                best.any = true;
                best.x = a.x0.empty() ? pt(x) : a.x0;
                best.t = tt;
                if (!((G0.dir < 0) ? tt <= before : tt >= before))
                    c.violate("best-value-worse", "%s: the best value went from %.12g to %.12g", kind.c_str(), before, tt);
                claim(best.x, tt, "the oracle");
            }
            else if (memcmp(&before, &tt, 8) && G0.kind != Goal::bis)
                c.violate("silent-improvement", "%s: the best value changed without an announcement", kind.c_str());
            for (auto& pr : plan)
                if (pr.first == 'a' && pr.second == queries)
                    throw Lost {};
            return a;
        };
        (void)lose_a;
        (void)lose_b;
        (void)left;
        // one call of the driver; true: it came to an end by itself
        auto call = [&](size_t budget) {
            Options op;
            op.max_it = unsigned(budget + 1);
            op.tol = tol;
            CInfo info {false, 0, CUTStatus::success};
            double t_in = t;
            X xb {};
            tr.last = Last {};
            if (G0.kind == Goal::feas)
            {
                auto f = [&](const X& x) -> std::optional<std::tuple<X, double>> {
                    Ans a = query(x, t, false);
                    if (!a.cut)
                        return {};
                    return {{xx(a.g), a.b0}};
                };
                info = cutting_plane_feas(f, *S, op);
                if (info.feasible)
                {
                    found = true;
                    fx = pt(S->xc());
                    claim(fx, 0, "the driver");
                    return true;
                }
            }
            else if (G0.kind == Goal::disc)
            {
                if constexpr (!one)
                {
                    auto f = [&](const X& x, double& tt, bool retry) {
                        Ans a = query(x, tt, retry);
                        return std::make_tuple(std::make_tuple(xx(a.g), a.b0), xx(a.x0), a.shrunk, a.more);
                    };
                    const auto r = cutting_plane_q(f, *S, t, op);
                    xb = std::get<0>(r);
                    info = std::get<1>(r);
                }
            }
            else if (kind == "low")
            {
                if constexpr (!one)
                {
                    auto f = [&](const X& x, double& tt) {
                        Ans a = query(x, tt, false);
                        return std::make_tuple(std::make_tuple(xx(a.g), a.parallel ? Arr {a.b0, a.b1} : Arr {a.b0}), a.shrunk);
                    };
                    const auto r = cutting_plane_dc(f, *S, t, op);
                    xb = std::get<0>(r);
                    info = std::get<1>(r);
                }
            }
            else
            {
                auto f = [&](const X& x, double& tt) {
                    Ans a = query(x, tt, false);
                    return std::make_tuple(std::make_tuple(xx(a.g), a.b0), a.shrunk);
                };
                const auto r = cutting_plane_dc(f, *S, t, op);
                xb = std::get<0>(r);
                info = std::get<1>(r);
            }
            if (G0.kind != Goal::feas && info.feasible)
                claim(pt(xb), t, "the driver");
            c.ev("slice: feasible %d status %d t %.17g", int(info.feasible), int(info.status), t);
            (void)t_in;
            if (info.status == CUTStatus::success)
            {
                room(*S, t, "at the budget");
                return false;
            }
            verdict(tr.last.st, tr.last.tsq, tr.last.gn, tr.t_at, "at the end");
            return true;
        };
        // bisection: every decision is a search of its own
        struct Inner
        {
            E2eWorld* w;
        };
        auto bisect = [&](size_t rounds) {
            if constexpr (!one)
            {
                struct QW
                {
                    std::function<std::optional<std::tuple<Arr, double>>(const Arr&)> f;
                    double now = 0;
                    auto operator()(const Arr& x) { return f(x); }
                    void update(double g) { now = g; }
                } qw;
                qw.f = [&](const Arr& x) -> std::optional<std::tuple<Arr, double>> {
                    Ans a = query(x, qw.now, false);
                    if (!a.cut)
                        return {};
                    return {{xx(a.g), a.b0}};
                };
                Options op;
                op.tol = tol;
                op.max_it = unsigned(1 + 2 * n * (n + 1) * std::log(G0.R / 1e-4));
                bsearch_adaptor<QW, Rec<E>> ad(qw, *S, op);
                auto decide = [&](double g) {
                    tr.last = Last {};
                    tr.t = &qw.now;
                    bool r = false;
                    try
                    {
                        r = ad(g);
                    }
                    catch (const Spent&)
                    {
                        c.probe("as-thin-as-it-gets");
                    }
                    tr.t = &t;
                    c.ev("decision %.17g: %d", g, int(r));
                    if (r)
                        claim(pt(ad.x_best()), g, "the bisection");
                    else
                    {
                        ++c.checks;
                        const double need = G0.inrad(g);
                        const double h = std::sqrt(std::max(0., tr.last.tsq)) / tr.last.gn;
                        const double slack = 2 * FINE * tr.last.longest;
                        if (tr.last.st == CUTStatus::nosoln ? need > slack : tr.last.tsq < tol || tr.last.spent ? need > h * (1 + 1e-6) + slack : need > 1.01e-4)
                            lost("gave-up", fmt("bisection: refused %.12g (optimum %.12g) although a ball of radius %.3g satisfies it", g, G0.topt, need));
                    }
                    return r;
                };
                Options ob;
                ob.max_it = unsigned(rounds);
                ob.tol = 1e-6;
                const auto info = bsearch(decide, I, ob);
                return info.status == CUTStatus::smallenough;
            }
            return true;
        };
        auto slice = [&](const Step* st, size_t budget) {
            plan.clear();
            queries = 0;
            long mem = 0;
            if (st)
                for (size_t k = 2; k < st->w.size(); ++k)
                {
                    const char ch = st->w[k][0];
                    const long at = strtol(st->w[k].c_str() + 1, nullptr, 10);
                    if (ch == 'm')
                        mem = at;
                    else
                        plan.push_back({ch, at});
                }
            simalloc::countdown = 0;
            if (mem)
                simalloc::arm(mem);
            try
            {
                const simalloc::Disarm guard;
                ended = G0.kind == Goal::bis ? bisect(std::max<size_t>(1, budget / 4)) : call(budget);
            }
            catch (const Lost&)
            {
                c.fault("query-lost");
            }
            catch (const std::bad_alloc&)
            {
                c.fault("allocation-failed");
            }
            catch (const Spent&)
            {
                c.probe("as-thin-as-it-gets");
                verdict(tr.last.st, tr.last.tsq, tr.last.gn, tr.t_at, "as thin as it gets");
                ended = true;
            }
            simalloc::disarm();
            tr.t = &t;
        };
        for (auto& st : sc.steps)
        {
            if (ended)
                break;
            c.simtime += 1;
            c.token(st.op());
            if (st.op() == "run")
                slice(&st, size_t(st.i(1)));
            else if (st.op() == "late")
            {
                if (G0.kind == Goal::bis || tr.seen.empty())
                    continue; // an old threshold's cut proves nothing about the next one
                const Cut k = tr.seen[tr.seen.size() - 1 - size_t(st.i(1)) % tr.seen.size()];
                const V x = pt(S->xc());
                double d = 0;
                for (size_t i = 0; i < n; ++i)
                    d += k.g[i] * (x[i] - k.x[i]);
                std::tuple<CUTStatus, double> r;
                try
                {
                    if constexpr (!one)
                    {
                        if (k.parallel)
                            r = S->update(std::make_tuple(xx(k.g), Arr {k.b0 + d, k.b1 + d}));
                        else
                            r = S->update(std::make_tuple(xx(k.g), k.b0 + d));
                    }
                    else
                        r = S->update(std::make_tuple(k.g[0], k.b0 + d));
                }
                catch (const Spent&)
                {
                    c.probe("as-thin-as-it-gets");
                    verdict(tr.last.st, tr.last.tsq, tr.last.gn, tr.t_at, "as thin as it gets");
                    ended = true;
                    continue;
                }
                c.fault("cut-delivered-again");
                c.ev("late cut: status %d", int(std::get<0>(r)));
                if (std::get<0>(r) == CUTStatus::nosoln)
                    verdict(CUTStatus::nosoln, 0, 1, t, "after a late cut");
            }
            else if (st.op() == "snap")
                snap = std::unique_ptr<Rec<E>>(new Rec<E>(S->e, &tr, S->shrink, S->grow));
            else if (st.op() == "restore")
            {
                if (!snap)
                    continue;
                S = std::unique_ptr<Rec<E>>(new Rec<E>(snap->e, &tr, snap->shrink, snap->grow));
                c.fault("restored-from-snapshot");
            }
            else if (st.op() == "copy")
            {
                S = std::unique_ptr<Rec<E>>(new Rec<E>(S->e, &tr, S->shrink, S->grow));
                c.fault("moved-to-a-copy");
            }
            else if (st.op() == "defer")
            {
                if constexpr (!std::is_same<E, ell1d>::value)
                {
                    S->e.no_defer_trick = !S->e.no_defer_trick;
                    c.fault("mode-switched");
                }
            }
            else if (st.op() == "share" && (G0.kind == Goal::opt))
            {
                const double cur = std::min(G0.gap(t), 4 * G0.scale);
                if (cur > 0)
                {
                    t = G0.topt - G0.dir * st.d(1) * cur;
                    if (G0.kind == Goal::opt && kind[0] == 'p')
                        t = std::max(t, 0.);
                    best.any = false;
                    c.fault("best-value-shared");
                }
            }
        }
        // faults stop: it must come to an end
        const double ln = std::log(G0.R / 1e-5);
        const size_t most = n == 1 ? size_t(ln / std::log(2.)) : size_t(2 * double(n) * double(n + 1) * ln);
        const long before_end = c.checks;
        (void)before_end;
        for (int rep = 0; rep < 2 && !ended; ++rep)
            slice(nullptr, G0.kind == Goal::bis ? 200 : most / 2);
        c.ev("end: ended %d found %d t %.17g optimum %.17g interval %.17g %.17g", int(ended), int(found), t, G0.topt, I.first, I.second);
        c.token(fmt("e%d", int(ended)));
        if (ended)
            c.probe("ended-by-itself");
        if (G0.kind == Goal::feas && ended && !found)
        { // judged above by its verdict
            c.probe("feasible-set-too-small-for-the-tolerance");
        }
        if (G0.kind == Goal::feas && !ended)
        {
            ++c.checks;
            if (G0.inrad(0) > 1e-5 * 1.01)
                lost("no-progress", fmt("%s: no point found in %zu queries after the faults stopped; a ball of radius %.3g is admissible", kind.c_str(), most, G0.inrad(0)));
        }
        if (G0.kind == Goal::bis && ended)
        {
            ++c.checks;
            // inner searches resolve balls of radius sqrt(tol)/|g|, |g| at least about 1e-3 here: judged per decision above
            if (I.second < G0.topt - 1e-6)
                c.violate("claim-wrong", "bisection ends at %.12g below the optimum %.12g", I.second, G0.topt);
        }
    }

    void run(const Scenario& sc, Ctx& c) override
    {
        const auto kind = sc.s("kind");
        auto g = make(kind, Rng(sc.u("pseed", 1)), size_t(sc.i("n", 2)));
        c.token(kind);
        c.ev("%s: n %zu R %.6g optimum %.12g", kind.c_str(), g->n, g->R, g->topt);
        const Arr x0 = arr(g->x0);
        const bool vs = sc.i("vecstart") != 0;
        const double R2 = g->R * g->R;
        const Arr d0 = R2 * xt::ones<double>({g->n});
        if (kind == "ratio")
            search<ell1d>(sc, c, *g, ell1d(g->x0[0] - g->R, g->x0[0] + g->R));
        else if (sc.s("space") == "stab")
        {
            ell_stable e = vs ? ell_stable(d0, x0) : ell_stable(R2, x0);
            e.no_defer_trick = sc.i("defer") != 0;
            search<ell_stable>(sc, c, *g, e);
        }
        else
        {
            ell e = vs ? ell(d0, x0) : ell(R2, x0);
            e.no_defer_trick = sc.i("defer") != 0;
            search<ell>(sc, c, *g, e);
        }
    }
};

int main(int argc, char** argv)
{
    E2eWorld w;
    return sim_main(argc, argv, w);
}
