// World "space": search regions fed by a simulated cut server over a lossy, late,
// duplicating and reordering channel, with snapshots, restarts and refused cuts.
// Real: ell, ell_stable, ell1d.  Simulated: cut server, channel, host of the region.
#include "la.hpp"
#include <ellcpp/cut_config.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/ell1d.hpp>
#include <ellcpp/ell_stable.hpp>
#include <memory>

using namespace sim;
using la::R;
using la::V;
using Arr = xt::xarray<double, xt::layout_type::row_major>;

static Arr arr(const std::vector<double>& v)
{
    Arr a = xt::zeros<double>({v.size()});
    for (size_t i = 0; i < v.size(); ++i)
        a(i) = v[i];
    return a;
}
static std::vector<double> dbl(const V& v) { return std::vector<double>(v.begin(), v.end()); }

struct Ans
{
    CUTStatus st;
    double tsq;
};

struct Space
{
    virtual ~Space() { }
    virtual size_t n() const = 0;
    virtual Ans up1(const std::vector<double>& g, double b, bool aslist) = 0;
    virtual Ans up2(const std::vector<double>& g, double b0, double b1) = 0;
    virtual std::vector<double> xc() const = 0;
    virtual void set_xc(const std::vector<double>& x) = 0;
    virtual void flag(int which, bool v) = 0; // 0: parallel cuts, 1: no deferred scaling
    virtual std::unique_ptr<Space> copy() const = 0;
    virtual std::unique_ptr<Space> moved() = 0;
    virtual void scribble() = 0; // write into arrays the region handed out
    virtual std::string name() const = 0;
    double probe(const std::vector<double>& g) const
    { // a cut that no point satisfies is refused and reports the squared half width along g
        auto c = copy();
        return c->up1(g, 1e300, false).tsq;
    }
};

template <typename E, bool stable>
struct EllSpace : Space
{
    E e;
    explicit EllSpace(E&& x) : e(std::move(x)) { }
    size_t n() const override { return e.xc().size(); }
    Ans up1(const std::vector<double>& g, double b, bool aslist) override
    {
        if (aslist)
        {
            Arr bb {b};
            auto r = e.update(std::tuple<Arr, Arr> {arr(g), bb});
            return {std::get<0>(r), std::get<1>(r)};
        }
        auto r = e.update(std::tuple<Arr, double> {arr(g), b});
        return {std::get<0>(r), std::get<1>(r)};
    }
    Ans up2(const std::vector<double>& g, double b0, double b1) override
    {
        Arr bb {b0, b1};
        auto r = e.update(std::tuple<Arr, Arr> {arr(g), bb});
        return {std::get<0>(r), std::get<1>(r)};
    }
    std::vector<double> xc() const override
    {
        Arr x = e.xc();
        return std::vector<double>(x.begin(), x.end());
    }
    void set_xc(const std::vector<double>& x) override { e.set_xc(arr(x)); }
    void flag(int w, bool v) override
    {
        if (w == 0)
            e.use_parallel_cut = v;
        else
            e.no_defer_trick = v;
    }
    std::unique_ptr<Space> copy() const override { return std::make_unique<EllSpace>(e.copy()); }
    std::unique_ptr<Space> moved() override { return std::make_unique<EllSpace>(E(std::move(e))); }
    void scribble() override
    {
        auto x = e.xc();
        x(0) += 12345.;
        auto c = e.copy();
        c.set_xc(x);
    }
    std::string name() const override { return stable ? "stable" : "ell"; }
};

struct Ell1dSpace : Space
{
    ell1d e;
    explicit Ell1dSpace(const ell1d& x) : e(x) { }
    size_t n() const override { return 1; }
    Ans up1(const std::vector<double>& g, double b, bool) override
    {
        auto r = e.update(std::tuple<double, double> {g[0], b});
        return {std::get<0>(r), std::get<1>(r)};
    }
    Ans up2(const std::vector<double>& g, double b0, double) override { return up1(g, b0, false); }
    std::vector<double> xc() const override { return {e.xc()}; }
    void set_xc(const std::vector<double>& x) override { e.set_xc(x[0]); }
    void flag(int, bool) override { }
    std::unique_ptr<Space> copy() const override { return std::make_unique<Ell1dSpace>(e); }
    std::unique_ptr<Space> moved() override { return std::make_unique<Ell1dSpace>(ell1d(std::move(e))); }
    void scribble() override
    {
        auto x = e.xc();
        x += 12345.;
        ell1d c(e);
        c.set_xc(x);
    }
    std::string name() const override { return "interval"; }
};

static const char* stname(CUTStatus s)
{
    switch (s)
    {
        case CUTStatus::success: return "success";
        case CUTStatus::nosoln: return "nosoln";
        case CUTStatus::smallenough: return "smallenough";
        case CUTStatus::noeffect: return "noeffect";
    }
    return "?";
}

// a region as the reference sees it
struct Region
{
    la::M m;
    V xc;
};

static Region observe(const Space& s)
{
    const size_t n = s.n();
    Region r;
    r.m = la::M(n);
    auto x = s.xc();
    r.xc = V(x.begin(), x.end());
    std::vector<double> sc(n);
    for (size_t i = 0; i < n; ++i)
    {
        std::vector<double> g(n, 0.);
        g[i] = 1.;
        double q = s.probe(g);
        r.m(i, i) = q;
        sc[i] = std::sqrt(q > 0 ? q : 1.);
    }
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j)
        {
            std::vector<double> g(n, 0.);
            g[i] = 1. / sc[i];
            g[j] = 1. / sc[j];
            R q = s.probe(g);
            R gi = g[i], gj = g[j];
            r.m(i, j) = r.m(j, i) = (q - gi * gi * r.m(i, i) - gj * gj * r.m(j, j)) / (2 * gi * gj);
        }
    return r;
}

static bool finite(const Region& r)
{
    for (R v : r.m.a)
        if (!std::isfinite(v))
            return false;
    for (R v : r.xc)
        if (!std::isfinite(v))
            return false;
    return true;
}

// is the region in the numerical regime the reference can judge?
static bool regime(const Region& r, R xratio = 1e16L, R cond = 1e7L)
{
    const size_t n = r.m.n;
    V e = la::eigs(r.m);
    R lo = e[0], hi = e[0], xm = 0;
    for (R v : e)
    {
        lo = std::min(lo, v);
        hi = std::max(hi, v);
    }
    for (R v : r.xc)
        xm = std::max(xm, fabsl(v));
    if (!(lo > 0) || hi / lo > cond || hi > 1e100L || lo < 1e-100L)
        return false;
    if (xm * xm > lo * xratio)
        return false;
    (void)n;
    return true;
}

// how much more than usual rounding shows in a region as flat as this
static R flatness(const Region& r)
{
    V e = la::eigs(r.m);
    R lo = e[0], hi = e[0];
    for (R v : e)
    {
        lo = std::min(lo, v);
        hi = std::max(hi, v);
    }
    return lo > 0 ? std::max<R>(1, hi / lo / 1e8L) : 1e30L;
}

struct RefStep
{
    CUTStatus st = CUTStatus::success;
    bool ambiguous = false; // within rounding of a threshold
    bool outside = false;
    bool empty_like = false; // ... of the threshold to nothing left
    bool minimal = true;    // the reference knows the smallest region
    R lam = 0, sc = 0, R2 = 1; // E' : centre sc along the axis, squared radii R2/(1+lam), R2
    R lo = -1, hi = 1;         // kept part of the unit ball: lo <= s <= hi
    R logvol2 = 0;             // log of squared volume ratio
    R tau = 0;
};

// reference: smallest ellipsoid over {|u|<=1, lo<=a'u<=hi}
static RefStep refstep(const Region& r, const std::vector<double>& g, double b0, double b1, bool par)
{
    const R eps = 1e-9L;
    const size_t n = r.m.n;
    RefStep o;
    V gg(g.begin(), g.end());
    V mg = la::mul(r.m, gg);
    R tsq = la::dot(gg, mg);
    o.tau = sqrtl(tsq);
    const R a0 = b0 / o.tau, a1 = b1 / o.tau;
    o.hi = -a0;
    o.empty_like = a0 > 0.9L || (par && (a1 < -0.9L || a1 - a0 < 1e-6L));
    if (!par)
    {
        if (fabsl(a0 - 1) < eps || fabsl(1 + R(n) * a0) < eps)
            o.ambiguous = true;
        if (a0 > 1)
            o.st = CUTStatus::nosoln;
        else if (1 + R(n) * a0 < 0)
            o.st = CUTStatus::noeffect;
    }
    else
    {
        if (fabsl(a0 - 1) < eps || fabsl(fabsl(a1) - 1) < eps || (fabsl(a1 - a0) < eps && b0 != b1) || fabsl(a0 + 1) < eps)
            o.ambiguous = true;
        if (a1 < -1)
            o.outside = true; // the whole slab lies beyond the region: nothing is promised
        if (a0 < -1)
            o.minimal = false; // the first plane lies behind the region: only coverage is promised
        o.lo = a1 > 1 ? -1 : -a1;
        if (a0 > 1 || b1 < b0)
            o.st = CUTStatus::nosoln;
        else
        {
            R lo = o.lo, hi = o.hi;
            R q = R(n) * lo * hi;
            if (fabsl(q + 1) < eps)
                o.ambiguous = true;
            if (q < -1)
                o.st = CUTStatus::noeffect;
        }
    }
    if (o.st != CUTStatus::success)
        return o;
    if (n == 1)
    {
        R lo = -1, hi = std::min<R>(o.hi, 1);
        o.sc = (lo + hi) / 2;
        R rad = (hi - lo) / 2;
        o.R2 = rad * rad;
        o.lam = 0;
        o.logvol2 = logl(o.R2);
        return o;
    }
    const R lo = o.lo, hi = o.hi;
    auto R2 = [&](R l) { return 1 - l * lo * hi + l * l * (lo + hi) * (lo + hi) / (4 * (1 + l)); };
    auto df = [&](R l) {
        R d = -lo * hi + (lo + hi) * (lo + hi) / 4 * (l * l + 2 * l) / ((1 + l) * (1 + l));
        return R(n) * d * (1 + l) - R2(l);
    };
    if (df(0) < 0)
    {
        R x = 0, y = 1;
        while (df(y) < 0 && y < 1e30L)
            y *= 4;
        for (int k = 0; k < 200; ++k)
        {
            R m = (x + y) / 2;
            (df(m) < 0 ? x : y) = m;
        }
        o.lam = (x + y) / 2;
    }
    o.R2 = R2(o.lam);
    o.sc = o.lam * (lo + hi) / (2 * (1 + o.lam));
    o.logvol2 = R(n) * logl(o.R2) - logl(1 + o.lam);
    return o;
}

// a verdict within rounding of a threshold may go either way; the outcome may not
static void settle(RefStep& o)
{
    if (o.outside)
        throw EndRun();
    if (!o.ambiguous)
        return;
    if (o.empty_like)
        throw EndRun();
    o.st = CUTStatus::success; // with lam = 0 (nothing changes) if the reference had refused
}

static Region apply(const Region& r, const std::vector<double>& g, const RefStep& o)
{
    V gg(g.begin(), g.end());
    V mg = la::mul(r.m, gg);
    Region q = r;
    const size_t n = r.m.n;
    R k = 1 - 1 / (1 + o.lam);
    for (size_t i = 0; i < n; ++i)
    {
        q.xc[i] += o.sc * mg[i] / o.tau;
        for (size_t j = 0; j < n; ++j)
            q.m(i, j) = o.R2 * (r.m(i, j) - k * mg[i] * mg[j] / (o.tau * o.tau));
    }
    return q;
}

// KNOWN FINDING "stable-update" (known_findings.txt): two lines of ell_stable::update are wrong
//  (1) the back substitution for Q*g takes row i instead of row i-1 of the factor,
//  (2) the rank-one update of the factor uses l(i,j)*v(j) instead of the running residual of g.
// This is what exactly these two mistakes make of a region.  Anything else is a violation.
static Region stable_defect(const Region& r, R kappa, const std::vector<double>& g, const RefStep& o)
{
    const size_t n = r.m.n;
    // Q = m/kappa,  Q^-1 = L diag(1/d) L'
    la::Chol ch(r.m);
    la::M inv(n);
    {
        // inverse by columns from the Cholesky factor
        for (size_t c = 0; c < n; ++c)
        {
            V y(n);
            for (size_t i = 0; i < n; ++i)
            {
                R s = (i == c ? 1.L : 0.L) / ch.sc[i];
                for (size_t k = 0; k < i; ++k)
                    s -= ch.L(i, k) * y[k];
                y[i] = s / ch.L(i, i);
            }
            V x(n);
            for (size_t ii = n; ii-- > 0;)
            {
                R s = y[ii];
                for (size_t k = ii + 1; k < n; ++k)
                    s -= ch.L(k, ii) * x[k];
                x[ii] = s / ch.L(ii, ii);
            }
            for (size_t i = 0; i < n; ++i)
                inv(i, c) = x[i] / ch.sc[i] * kappa;
        }
    }
    la::Chol ci(inv); // inv = S L0 L0' S
    la::M L(n);
    V d(n);
    Region bad = r;
    if (!ch.ok || !ci.ok)
    {
        bad.xc.assign(n, NAN);
        return bad;
    }
    for (size_t j = 0; j < n; ++j)
    {
        R p = ci.L(j, j) * ci.sc[j];
        d[j] = 1 / (p * p);
        for (size_t i = j; i < n; ++i)
            L(i, j) = ci.L(i, j) * ci.sc[i] / p;
    }
    const R sigma = 1 - 1 / (1 + o.lam), delta = o.R2, rho = -o.sc * o.tau;
    V v(n), s(n), q(n), gq(n);
    la::M scr(n);
    for (size_t i = 0; i < n; ++i)
    {
        v[i] = g[i];
        for (size_t j = 0; j < i; ++j)
        {
            scr(i, j) = L(i, j) * v[j];
            v[i] -= scr(i, j);
        }
    }
    R om = 0;
    for (size_t i = 0; i < n; ++i)
    {
        s[i] = d[i] * v[i];
        gq[i] = s[i] * v[i];
        om += gq[i];
    }
    q = s;
    for (size_t i = n - 1; i > 0; --i)
        for (size_t j = i; j < n; ++j)
            q[i - 1] -= (j == i ? d[i] : L(j, i)) * q[j]; // (1)
    for (size_t i = 0; i < n; ++i)
        bad.xc[i] -= rho / om * q[i];
    R oldt = (1 - sigma) * om;
    for (size_t j = 0; j < n; ++j)
    {
        R t = oldt + sigma * gq[j];
        R b2 = sigma * s[j] / t;
        d[j] *= oldt / t;
        for (size_t l = j + 1; l < n; ++l)
            L(l, j) += b2 * scr(l, j); // (2)
        oldt = t;
    }
    // m' = kappa' L^-T d L^-1 : columns of W = L^-1
    la::M W(n);
    for (size_t c = 0; c < n; ++c)
        for (size_t i = 0; i < n; ++i)
        {
            R x = i == c ? 1 : 0;
            for (size_t k = 0; k < i; ++k)
                x -= L(i, k) * W(k, c);
            W(i, c) = x;
        }
    for (size_t a = 0; a < n; ++a)
        for (size_t b = 0; b < n; ++b)
        {
            R x = 0;
            for (size_t k = 0; k < n; ++k)
                x += W(k, a) * d[k] * W(k, b);
            bad.m(a, b) = kappa * delta * x;
        }
    return bad;
}

// largest deviation of region b from region a, in units of a
static R deviation(const Region& a, const Region& b)
{
    la::Chol ch(a.m);
    if (!ch.ok || !finite(b))
        return 1e30L;
    const size_t n = a.m.n;
    // L^-1 (b.m - a.m) L^-T with L including the scaling
    auto fsub = [&](V y) {
        for (size_t i = 0; i < n; ++i)
        {
            y[i] /= ch.sc[i];
            for (size_t k = 0; k < i; ++k)
                y[i] -= ch.L(i, k) * y[k];
            y[i] /= ch.L(i, i);
        }
        return y;
    };
    la::M t(n);
    for (size_t j = 0; j < n; ++j)
    {
        V col(n);
        for (size_t i = 0; i < n; ++i)
            col[i] = b.m(i, j) - a.m(i, j);
        col = fsub(col);
        for (size_t i = 0; i < n; ++i)
            t(i, j) = col[i];
    }
    R worst = 0;
    for (size_t i = 0; i < n; ++i)
    {
        V row(n);
        for (size_t j = 0; j < n; ++j)
            row[j] = t(i, j);
        row = fsub(row);
        for (R v : row)
            worst = std::max(worst, fabsl(v));
    }
    V dx(n);
    for (size_t i = 0; i < n; ++i)
        dx[i] = b.xc[i] - a.xc[i];
    return std::max(worst, sqrtl(ch.quad(dx)));
}

// point of the old region: xc + s*Mg/tau + sqrt(1-s^2)*(orthogonal unit vector in the metric of M)
static V rim(const Region& r, const la::Chol& ch, const std::vector<double>& g, const RefStep& o, R s, uint64_t seed)
{
    const size_t n = r.m.n;
    V gg(g.begin(), g.end());
    V mg = la::mul(r.m, gg);
    V w = la::unit_dir(seed, n);
    // y = L w has unit length in the metric
    V y(n);
    for (size_t i = 0; i < n; ++i)
    {
        R v = 0;
        for (size_t k = 0; k <= i; ++k)
            v += ch.L(i, k) * w[k];
        y[i] = v * ch.sc[i];
    }
    R c = la::dot(gg, y) / o.tau;
    R nn = 1 - c * c;
    V p = r.xc;
    R k = nn > 1e-12L ? sqrtl(std::max<R>(0, 1 - s * s) / nn) : 0;
    for (size_t i = 0; i < n; ++i)
        p[i] += s * mg[i] / o.tau + k * (y[i] - c * mg[i] / o.tau);
    return p;
}

struct Cut
{
    std::vector<double> g;
    double b0 = 0, b1 = 0;
    bool par = false;
    std::vector<double> at; // centre it was made for
    double t = 0;
    int delivered = 0;
};

// where the first plane of a slab turned inside out lies
static R inverted(uint64_t h, size_t n)
{
    const R at[] = {0.3L, 0, -0.5L / R(n), 0.8L, 0.01L};
    return at[h / 7 % 5];
}

struct SpaceWorld : World
{
    // ------------------------------------------------------------ generation
    Scenario gen(Rng& r, const std::string& prop, bool thorough) override
    {
        Scenario sc;
        std::string kind = r.pick<std::string>({"ell", "ell", "ell", "stable", "stable", "stable", "1d"});
        if (prop == "C20")
            kind = "rep";
        const bool d1 = kind == "1d";
        const bool lng = r.p(0.03);
        const bool wide = !lng && r.p(0.02);
        int n = d1 ? 1 : lng ? int(r.i(2, 4)) : wide ? int(r.i(10, 18)) : int(r.p(0.8) ? r.i(2, 5) : r.i(6, thorough ? 14 : 9));
        sc.set("kind", kind);
        sc.set("n", n);
        sc.set("init", r.p(0.5) ? "one" : "vec");
        std::string v, x;
        double scale = std::pow(10., r.u(-3, 4));
        if ((kind == "stable" || kind == "rep") && sc.s("init") == "vec")
            scale = std::pow(10., r.u(-3, -1)); // the known finding amplifies larger scales beyond recognition
        for (int i = 0; i < n; ++i)
        {
            v += fmt("%.17g ", scale * std::pow(10., r.u(-1, 1)));
            x += fmt("%.17g ", r.p(0.3) ? 0. : r.normal() * std::sqrt(scale));
        }
        sc.set("val", v);
        sc.set("xc", x);
        sc.set("par", r.p(0.85) ? 1 : 0);
        sc.set("nodefer", r.p(0.3) ? 1 : 0);
        sc.set("hseed", r.next() % 1000000007ULL);
        sc.set("nh", int(r.i(1, 5)));
        const bool hid = prop == "C01";
        sc.set("keep", hid ? 1 : 0);
        const int len = lng ? int(r.i(200, 500)) : int(r.i(5, n <= 4 ? (thorough ? 120 : 50) : wide ? 12 : 25));
        // ways of this run
        const double ppar = d1 ? 0. : r.pick<double>({0., 0.2, 0.5, 0.9});
        const double pstale = r.pick<double>({0., 0.1, 0.4});
        const double pdup = r.pick<double>({0., 0.1, 0.3});
        const double ploss = r.pick<double>({0., 0.05, 0.2});
        const double pbad = prop == "C03" ? r.pick<double>({0.1, 0.3, 0.6}) : r.pick<double>({0., 0.1});
        const double psnap = hid ? r.pick<double>({0., 0.05, 0.15}) : 0.;
        const double pflag = r.pick<double>({0., 0.05});
        const std::string dirs = lng ? "l" : r.pick<std::string>({"m", "mr", "mlra", "l", "mla"});
        std::vector<int> inflight;
        int id = 0, objs = 1, snaps = 0;
        auto emit = [&]() {
            double al;
            double z = r.u();
            if (z < (lng ? 0.7 : 0.25))
                al = 0.;
            else if (z < 0.6)
                al = r.u(0., 0.9);
            else if (z < 0.9)
                al = -r.u(0., 0.98) / n;
            else
                al = r.pick<double>({1e-12, -1e-12, 1e-6, 0.95, -0.5 / n});
            double w = -1;
            if (r.p(ppar))
            {
                double y = r.u();
                if (y < 0.2)
                    w = -2 * al; // symmetric about the centre
                else if (y < 0.3)
                    w = r.u(1.0, 3.0);
                else if (y < 0.4)
                    w = 1. - al; // second plane tangent
                else
                    w = r.u(0.03, 1.5);
                if (w < 0.03)
                    w = r.u(0.03, 1.0);
            }
            sc.add(fmt("emit %d %c %llu %.17g %.17g %.17g", id, dirs[size_t(r.i(0, long(dirs.size()) - 1))],
                (unsigned long long)(r.next() % 1000000007ULL), r.p(0.5) ? 1. : std::pow(10., r.u(-4, 4)), al, w));
            return id++;
        };
        auto deliver = [&](int k, int obj, const char* why) {
            sc.add(fmt("del %d %d %s %d", k, obj, why, int(r.p(0.15))));
        };
        for (int k = 0; k < len; ++k)
        {
            const int obj = prop == "C04" ? int(r.i(0, objs - 1)) : 0;
            if (prop == "C04" && r.p(0.25))
            {
                double z = r.u();
                if (z < 0.45 && objs < 6)
                    sc.add(fmt("copy %ld", r.i(0, objs - 1))), ++objs;
                else if (z < 0.6)
                    sc.add(fmt("move %ld", r.i(0, objs - 1)));
                else if (z < 0.75)
                    sc.add(fmt("scribble %ld", r.i(0, objs - 1)));
                else if (z < 0.9)
                    sc.add(fmt("setxc %ld %llu", r.i(0, objs - 1), (unsigned long long)(r.next() % 100003)));
                else
                    sc.add(fmt("flag %d %d %d", int(r.i(0, 1)), int(r.p(0.5)), int(r.i(0, objs - 1))));
            }
            if (r.p(pflag))
                sc.add(fmt("flag %d %d %d", int(r.i(0, 1)), int(r.p(0.5)), obj));
            if (psnap > 0 && r.p(psnap))
            {
                if (snaps && r.p(0.6))
                    sc.add("restore");
                else
                    sc.add("snap"), ++snaps;
            }
            if (r.p(pbad))
                sc.add(fmt("bad %d %d %llu %.17g %.17g", obj, int(r.i(0, d1 ? 2 : 4)),
                    (unsigned long long)(r.next() % 1000000007ULL), r.p(0.3) ? 1e-7 : std::pow(10., r.u(-6, 1)),
                    std::pow(10., r.u(-3, 3))));
            if (!inflight.empty() && r.p(0.5))
            { // a late one arrives
                size_t q = size_t(r.i(0, long(inflight.size()) - 1));
                int c = inflight[q];
                inflight.erase(inflight.begin() + long(q));
                deliver(c, obj, "late");
                continue;
            }
            int c = emit();
            if (r.p(ploss))
            {
                sc.add(fmt("lose %d", c));
                continue;
            }
            if (r.p(pstale))
            {
                inflight.push_back(c);
                continue;
            }
            deliver(c, obj, "now");
            if (r.p(pdup))
                deliver(c, obj, "dup");
            if (r.p(pdup * 0.5))
                inflight.push_back(c); // a duplicate that will be late, too
        }
        if (prop == "C02")
            sc.add(fmt("live %llu %.17g %.17g %d", (unsigned long long)(r.next() % 1000000007ULL), r.u(0., 0.9),
                std::pow(10., r.u(-3.5, -0.7)), int(r.i(0, 2))));
        return sc;
    }

    // ------------------------------------------------------------ execution
    struct Obj
    {
        std::unique_ptr<Space> s;      // the region under test
        std::unique_ptr<Space> twin;   // sees accepted cuts only (C03)
        std::vector<std::function<void(Space&)>> log; // how to rebuild it from scratch (C04)
        std::vector<V> hidden;
        bool par = true;
        R kappa = 1;         // scalar part of the stable form (needed by the known finding only)
        bool defect = false; // a step went wrong in the known way
    };
    static R first_val(const Scenario& sc)
    {
        std::istringstream a(sc.s("val"));
        double v = 1;
        a >> v;
        return v;
    }
    // the accepted step went wrong exactly as the known finding says
    static bool known_defect(Ctx& c, const Space& s, const Region& before, const Region& after, R kappa, const std::vector<double>& g,
        const RefStep& rs)
    {
        if (s.name() != "stable" || rs.st != CUTStatus::success)
            return false;
        if (deviation(apply(before, g, rs), after) <= 1e-6L)
            return false;
        Region d = stable_defect(before, kappa, g, rs);
        if (!finite(d))
            return false;
        la::Chol ch(d.m);
        V dx(d.xc);
        for (size_t i = 0; i < dx.size(); ++i)
            dx[i] -= before.xc[i];
        // the wrong step may be huge: its rounding counts relative to itself
        if (!ch.ok || deviation(d, after) > 1e-6L + 1e-7L * sqrtl(ch.quad(dx)))
            return false;
        c.known_finding("stable-update");
        return true;
    }
    std::unique_ptr<Space> make(const Scenario& sc, int variant)
    {
        const size_t n = size_t(sc.i("n"));
        std::vector<double> val(n), x(n);
        std::istringstream a(sc.s("val")), b(sc.s("xc"));
        for (size_t i = 0; i < n; ++i)
        {
            a >> val[i];
            b >> x[i];
        }
        if (sc.s("kind") == "1d")
            return std::make_unique<Ell1dSpace>(ell1d(x[0] - std::sqrt(val[0]), x[0] + std::sqrt(val[0])));
        const bool one = sc.s("init") == "one";
        const bool st = variant == 2;
        const bool asvec = !one || variant == 3;
        if (one && variant == 3)
            for (auto& q : val)
                q = val[0];
        if (st)
        {
            if (asvec)
                return std::make_unique<EllSpace<ell_stable, true>>(ell_stable(arr(val), arr(x)));
            return std::make_unique<EllSpace<ell_stable, true>>(ell_stable(val[0], arr(x)));
        }
        if (asvec)
            return std::make_unique<EllSpace<ell, false>>(ell(arr(val), arr(x)));
        return std::make_unique<EllSpace<ell, false>>(ell(val[0], arr(x)));
    }
    std::vector<double> direction(const Region& r, const std::string& mode, uint64_t seed, double scale)
    {
        const size_t n = r.m.n;
        V g(n, 0.L);
        if (mode == "a")
            g[seed % n] = (seed / 16) % 2 ? -1 : 1;
        else if (mode == "l")
        {
            la::M vec(n);
            V e = la::eigs(r.m, &vec);
            size_t k = 0;
            for (size_t i = 1; i < n; ++i)
                if (e[i] > e[k])
                    k = i;
            for (size_t i = 0; i < n; ++i)
                g[i] = vec(i, k) * (seed % 2 ? -1 : 1);
            V w = la::unit_dir(seed, n);
            for (size_t i = 0; i < n; ++i)
                g[i] += 0.05L * w[i];
        }
        else
        {
            V w = la::unit_dir(seed, n);
            if (mode == "m")
            { // uniform in the metric of the region: g = L^-T w
                la::Chol ch(r.m);
                for (size_t ii = n; ii-- > 0;)
                {
                    R s = w[ii];
                    for (size_t k = ii + 1; k < n; ++k)
                        s -= ch.L(k, ii) * g[k] * ch.sc[k];
                    g[ii] = s / ch.L(ii, ii) / ch.sc[ii];
                }
                R s = 0;
                for (R v : g)
                    s += v * v;
                for (auto& v : g)
                    v /= sqrtl(s);
            }
            else
                g = w;
        }
        std::vector<double> o(n);
        for (size_t i = 0; i < n; ++i)
            o[i] = double(g[i] * R(scale));
        return o;
    }
    static void same(Ctx& c, const char* cls, const Ans& a, const Ans& b, const Space& x, const Space& y)
    {
        ++c.checks;
        auto p = x.xc(), q = y.xc();
        if (a.st != b.st || memcmp(&a.tsq, &b.tsq, 8) != 0 || memcmp(p.data(), q.data(), 8 * p.size()) != 0)
            c.violate(cls, "%s: answers %s %.17g, expected %s %.17g; centre[0] %.17g, expected %.17g", x.name().c_str(),
                stname(a.st), a.tsq, stname(b.st), b.tsq, p[0], q[0]);
    }

    void run(const Scenario& sc, Ctx& c) override
    {
        const std::string prop = sc.s("prop");
        if (prop == "C20")
            return run_replicas(sc, c);
        const size_t n = size_t(sc.i("n"));
        std::vector<Obj> objs(1);
        const int variant = sc.s("kind") == "stable" ? 2 : 0;
        objs[0].s = make(sc, variant);
        objs[0].par = sc.i("par") != 0;
        if (sc.s("init") == "one")
            objs[0].kappa = first_val(sc);
        objs[0].s->flag(0, sc.i("par") != 0);
        objs[0].s->flag(1, sc.i("nodefer") != 0);
        auto initlog = [this, sc](Space& s) {
            s.flag(0, sc.i("par") != 0);
            s.flag(1, sc.i("nodefer") != 0);
        };
        objs[0].log.push_back(initlog);
        Region r0 = observe(*objs[0].s);
        { // the region starts as constructed
            Region want = r0;
            std::istringstream a(sc.s("val")), b(sc.s("xc"));
            double v0 = 0;
            for (size_t i = 0; i < n; ++i)
            {
                double v, x;
                a >> v;
                b >> x;
                if (i == 0)
                    v0 = v;
                for (size_t j = 0; j < n; ++j)
                    want.m(i, j) = 0;
                want.m(i, i) = sc.s("init") == "one" ? v0 : v;
                want.xc[i] = x;
            }
            ++c.checks;
            if (deviation(want, r0) > 1e-6L)
                c.violate("initial-region", "the region does not start as constructed (deviation %Lg)", deviation(want, r0));
        }
        if (prop == "C03")
        {
            objs[0].twin = objs[0].s->copy();
        }
        { // hidden points
            la::Chol ch(r0.m);
            Rng hr(sc.u("hseed"));
            for (int k = 0; k < sc.i("nh"); ++k)
            {
                V w = la::unit_dir(hr.next(), n);
                R rad = powl(hr.u(), 1.L / R(n)) * 0.999L;
                V z(n);
                for (size_t i = 0; i < n; ++i)
                {
                    R s = 0;
                    for (size_t j = 0; j <= i; ++j)
                        s += ch.L(i, j) * w[j] * rad;
                    z[i] = r0.xc[i] + s * ch.sc[i];
                }
                objs[0].hidden.push_back(z);
            }
        }
        std::map<int, Cut> cuts;
        struct Snap
        {
            std::unique_ptr<Space> s, twin;
            std::vector<V> hidden;
            bool par;
            R kappa;
        };
        std::unique_ptr<Snap> snap;
        const bool keep = sc.i("keep") != 0;

        auto feed = [&](Obj& o, const std::vector<double>& g, double b0, double b1, bool par, bool aslist) {
            Space& s = *o.s;
            Region before = observe(s);
            const bool usepar = par && o.par && n > 1;
            RefStep rs = refstep(before, g, b0, b1, usepar);
            std::unique_ptr<Space> old;
            double tprobe = 0;
            const bool checktsq = prop == "C03" || prop == "C02";
            if (checktsq)
                tprobe = s.probe(g);
            Ans a = par ? s.up2(g, b0, b1) : s.up1(g, b0, aslist);
            c.ev("cut b0=%.17g b1=%.17g par=%d -> %s tsq=%.17g xc0=%.17g", b0, b1, int(par), stname(a.st), a.tsq, s.xc()[0]);
            c.token(stname(a.st));
            c.probe(std::string("verdict-") + stname(a.st));
            o.log.push_back([g, b0, b1, par, aslist](Space& q) { par ? q.up2(g, b0, b1) : q.up1(g, b0, aslist); });
            // ---- C03: verdict
            if (prop == "C03")
            {
                ++c.checks;
                if (!rs.ambiguous && rs.minimal && !rs.outside && a.st != rs.st)
                    c.violate("wrong-verdict", "%s n=%zu: b0/tau=%.12Lg b1/tau=%.12Lg parallel=%d: reported %s, is %s", s.name().c_str(), n,
                        R(b0) / rs.tau, R(b1) / rs.tau, int(usepar), stname(a.st), stname(rs.st));
                R want = rs.tau * rs.tau;
                if (!(fabsl(a.tsq - want) <= 1e-7L * want) || !(fabs(a.tsq - tprobe) <= 1e-9 * tprobe))
                    c.violate("wrong-size", "%s: reported size %.17g, the squared half width is %.17Lg", s.name().c_str(), a.tsq, want);
                if (a.st == CUTStatus::success)
                {
                    Ans b = par ? o.twin->up2(g, b0, b1) : o.twin->up1(g, b0, aslist);
                    same(c, "refused-cut-left-trace", a, b, s, *o.twin);
                }
                else
                {
                    c.fault("refused-cut");
                    auto p = s.xc(), q = o.twin->xc();
                    ++c.checks;
                    if (memcmp(p.data(), q.data(), 8 * p.size()) != 0)
                        c.violate("refused-cut-left-trace", "a refused cut moved the centre");
                    Rng pr(sc.u("hseed") + uint64_t(c.events));
                    for (int k = 0; k < 3; ++k)
                    {
                        auto d = dbl(la::unit_dir(pr.next(), n));
                        double u = s.probe(d), v = o.twin->probe(d);
                        if (memcmp(&u, &v, 8) != 0)
                            c.violate("refused-cut-left-trace", "a refused cut (%s) changed the shape: %.17g, was %.17g", stname(a.st), u, v);
                    }
                }
            }
            if (a.st == CUTStatus::smallenough)
                c.violate("wrong-verdict", "a region never reports smallenough");
            if (a.st != CUTStatus::success)
            {
                if (prop == "C01" && a.st == CUTStatus::nosoln)
                { // some known point satisfies the cut and is inside
                    for (auto& z : o.hidden)
                    {
                        R h = 0;
                        for (size_t i = 0; i < n; ++i)
                            h += R(g[i]) * (z[i] - before.xc[i]);
                        ++c.checks;
                        if (h + b0 < -1e-8L * rs.tau && (!usepar || h + b1 > 1e-8L * rs.tau))
                            c.violate("answer-lost", "%s: reports no solution although a tracked point satisfies every cut", s.name().c_str());
                    }
                }
                if (prop == "C01" || prop == "C02")
                { // unchanged
                    ++c.checks;
                    Region after = observe(s);
                    if (deviation(before, after) > 1e-9L)
                        c.violate("refused-cut-changed-region", "%s: region changed by a refused cut", s.name().c_str());
                }
                return a;
            }
            settle(rs);
            if (rs.st == CUTStatus::nosoln)
                throw EndRun(); // accepted although nothing is left: judged by C03
            Region after = observe(s);
            const bool kd = (prop == "C01" || prop == "C02") && finite(after) && known_defect(c, s, before, after, o.kappa, g, rs);
            o.kappa *= rs.R2;
            if (kd)
            { // the step is the recorded defect: judge the following steps from where it led
                o.defect = true;
                c.probe("known-defect-step");
                if (!regime(after, 1e14L, 1e5L))
                    throw EndRun();
                la::Chol ca(after.m);
                for (size_t k = 0; k < o.hidden.size();)
                {
                    V d(n);
                    for (size_t i = 0; i < n; ++i)
                        d[i] = o.hidden[k][i] - after.xc[i];
                    R h = 0;
                    for (size_t i = 0; i < n; ++i)
                        h += R(g[i]) * (o.hidden[k][i] - before.xc[i]);
                    if (ca.quad(d) > 1 - 1e-6L || h + b0 > 0 || (usepar && h + b1 < 0))
                        o.hidden.erase(o.hidden.begin() + long(k));
                    else
                        ++k;
                }
                return a;
            }
            if (prop == "C01" || prop == "C02")
            {
                ++c.checks;
                if (!finite(after))
                    c.violate("not-finite", "%s n=%zu: the region is not finite after an accepted cut, b0/tau=%.12Lg b1/tau=%.12Lg par=%d",
                        s.name().c_str(), n, R(b0) / rs.tau, R(b1) / rs.tau, int(par));
            }
            else if (!finite(after))
                throw EndRun();
            if (prop == "C01")
            {
                la::Chol cb(before.m), ca(after.m);
                ++c.checks;
                if (!ca.ok)
                    c.violate("answer-lost", "%s: the region is not an ellipsoid any more", s.name().c_str());
                const R slack = 1e-5L * flatness(apply(before, g, rs));
                auto inside = [&](const V& p) {
                    V d(n);
                    for (size_t i = 0; i < n; ++i)
                        d[i] = p[i] - after.xc[i];
                    return ca.quad(d);
                };
                R hi = std::min<R>(rs.hi, 1), lo = std::max<R>(rs.lo, -1);
                std::vector<R> ss {hi, lo};
                for (int k = 1; k < 4; ++k)
                    ss.push_back(lo + (hi - lo) * k / 4);
                Rng pr(sc.u("hseed") + uint64_t(c.events) * 77);
                for (R sv : ss)
                    for (int k = 0; k < (n == 1 ? 1 : 4); ++k)
                    {
                        V p = before.xc;
                        if (n == 1)
                            p[0] += sv * la::mul(before.m, V {R(g[0])})[0] / rs.tau;
                        else
                            p = rim(before, cb, g, rs, sv, pr.next());
                        ++c.checks;
                        R q = inside(p);
                        if (q > 1 + slack)
                            c.violate("answer-lost", "%s n=%zu: a kept point of the old region is outside the new one (%.9Lg > 1), s=%.6Lg b0/tau=%.9Lg b1/tau=%.9Lg par=%d",
                                s.name().c_str(), n, q, sv, R(b0) / rs.tau, R(b1) / rs.tau, int(usepar));
                    }
                for (size_t k = 0; k < o.hidden.size();)
                {
                    R h = 0;
                    for (size_t i = 0; i < n; ++i)
                        h += R(g[i]) * (o.hidden[k][i] - before.xc[i]);
                    if (h + b0 > 0 || (usepar && h + b1 < 0))
                    { // rightly cut off
                        o.hidden.erase(o.hidden.begin() + long(k));
                        c.probe("hidden-point-rightly-cut");
                        continue;
                    }
                    ++c.checks;
                    R q = inside(o.hidden[k]);
                    if (q > 1 + slack)
                        c.violate("answer-lost", "%s: a tracked point that satisfies every cut left the region (%.9Lg > 1)", s.name().c_str(), q);
                    ++k;
                }
            }
            if (prop == "C02" && rs.minimal && rs.st == CUTStatus::success)
            {
                la::Chol cb(before.m), ca(after.m);
                ++c.checks;
                if (!ca.ok)
                    c.violate("not-smallest", "%s: the region is not an ellipsoid any more", s.name().c_str());
                R lv = ca.logdet - cb.logdet;
                Region want = apply(before, g, rs);
                const R slack = 1e-6L * flatness(want);
                if (lv > slack / 10)
                    c.violate("grown", "%s n=%zu: an accepted cut made the region larger (log volume ratio %.9Lg)", s.name().c_str(), n, lv / 2);
                if (!usepar && b0 >= 0 && lv / 2 > -1 / (2 * (R(n) + 1)) + slack / 1000)
                    c.violate("too-little-progress", "%s n=%zu: volume ratio exp(%.9Lg) after a central or deep cut", s.name().c_str(), n, lv / 2);
                if (fabsl(lv - rs.logvol2) > slack)
                    c.violate("not-smallest", "%s n=%zu: log volume ratio %.9Lg, smallest possible %.9Lg (b0/tau=%.9Lg b1/tau=%.9Lg par=%d)",
                        s.name().c_str(), n, lv / 2, rs.logvol2 / 2, R(b0) / rs.tau, R(b1) / rs.tau, int(usepar));
                R dv = deviation(want, after);
                if (dv > slack)
                    c.violate("not-smallest", "%s n=%zu: region deviates from the smallest covering one by %.6Lg (b0/tau=%.9Lg b1/tau=%.9Lg par=%d)",
                        s.name().c_str(), n, dv, R(b0) / rs.tau, R(b1) / rs.tau, int(usepar));
            }
            if (!regime(after))
            {
                c.probe("left-regime");
                throw EndRun();
            }
            return a;
        };

        for (auto& st : sc.steps)
        {
            c.simtime += 1;
            const std::string& op = st.op();
            if (op == "emit")
            {
                Obj& o = objs[0];
                Region r = observe(*o.s);
                if (!finite(r) || !regime(r))
                    throw EndRun();
                Cut k;
                k.g = direction(r, st.str(2), st.u(3), st.d(4));
                V gg(k.g.begin(), k.g.end());
                R tau = sqrtl(la::dot(gg, la::mul(r.m, gg)));
                R al = st.d(5), w = st.d(6);
                if (keep && !o.hidden.empty())
                {
                    R s = 0;
                    for (size_t i = 0; i < n; ++i)
                        s += gg[i] * (o.hidden[0][i] - r.xc[i]);
                    s /= tau;
                    if (s > 0)
                    {
                        s = -s;
                        for (auto& v : k.g)
                            v = -v;
                    }
                    if (al > -s - 1e-6L)
                        al = -s - 1e-6L;
                    if (w >= 0 && al + w < -s + 1e-6L)
                        w = -s + 1e-6L - al;
                }
                k.b0 = double(al * tau);
                k.par = w >= 0;
                k.b1 = double((al + w) * tau);
                k.at = o.s->xc();
                k.t = c.simtime;
                cuts[int(st.i(1))] = k;
                c.token(k.par ? "E2" : "E1");
            }
            else if (op == "lose")
            {
                c.fault("cut-lost");
                cuts.erase(int(st.i(1)));
            }
            else if (op == "del")
            {
                auto it = cuts.find(int(st.i(1)));
                if (it == cuts.end() || st.i(2) >= long(objs.size()))
                    continue;
                Obj& o = objs[size_t(st.i(2))];
                Cut& k = it->second;
                Region r = observe(*o.s);
                if (!finite(r) || !regime(r))
                    throw EndRun();
                // same half space, seen from the current centre
                R sh = 0;
                for (size_t i = 0; i < n; ++i)
                    sh += R(k.g[i]) * (r.xc[i] - R(k.at[i]));
                double b0 = double(R(k.b0) + sh), b1 = double(R(k.b1) + sh);
                if (k.delivered)
                    c.fault("cut-duplicated");
                if (k.t < c.simtime - 2)
                    c.fault("cut-delayed");
                for (auto& q : cuts)
                    if (q.first > it->first && q.second.delivered && !k.delivered)
                    {
                        c.fault("cut-reordered");
                        break;
                    }
                ++k.delivered;
                V gg(k.g.begin(), k.g.end());
                R tau = sqrtl(la::dot(gg, la::mul(r.m, gg)));
                if ((R(b0) / tau > 0.97L && R(b0) / tau <= 1.001L) || (k.par && (b1 - b0) / tau < 0.02L))
                { // an all but empty remainder: out of the regime the reference judges
                    c.probe("sliver-skipped");
                    continue;
                }
                feed(o, k.g, b0, b1, k.par, st.i(4) != 0);
            }
            else if (op == "bad")
            { // a cut made to be refused (or to miss that by very little)
                if (st.i(1) >= long(objs.size()))
                    continue;
                Obj& o = objs[size_t(st.i(1))];
                Region r = observe(*o.s);
                if (!finite(r) || !regime(r))
                    throw EndRun();
                auto g = direction(r, "m", st.u(3), st.d(5));
                V gg(g.begin(), g.end());
                R tau = sqrtl(la::dot(gg, la::mul(r.m, gg)));
                R e = st.d(4);
                switch (st.i(2))
                {
                    case 0: if (!keep) feed(o, g, double(tau * (1 + e)), 0, false, false); break;
                    case 1: feed(o, g, double(-tau * (1 + e) / R(n)), 0, false, false); break;
                    case 2: feed(o, g, double(-tau * std::max<R>(0, 1 - e) / R(n)), 0, false, true); break;
                    case 3: // slab turned inside out
                        if (!keep && o.par)
                        {
                            const R at = inverted(st.u(3), n);
                            feed(o, g, double(tau * at), double(tau * (at - std::min<R>(e, 0.9L + at))), true, false);
                        }
                        break;
                    case 4: // slab just too wide, or just not too wide, to help
                    {
                        R q = sqrtl((1 + e) / R(n));
                        if (q < 0.999L && !keep)
                            feed(o, g, double(-q * tau), double(q * tau), true, false);
                        q = sqrtl(std::max<R>(0.0016L, 1 - e) / R(n));
                        if (!keep)
                            feed(o, g, double(-q * tau), double(q * tau), true, false);
                        break;
                    }
                }
            }
            else if (op == "snap")
            {
                snap.reset(new Snap {objs[0].s->copy(), nullptr, objs[0].hidden, objs[0].par, objs[0].kappa});
                c.ev("snapshot");
            }
            else if (op == "restore")
            {
                if (!snap)
                    continue;
                c.fault("restart-from-snapshot");
                objs[0].s = snap->s->copy();
                objs[0].hidden = snap->hidden;
                objs[0].par = snap->par;
                objs[0].kappa = snap->kappa;
                c.ev("restored");
                Region r = observe(*objs[0].s);
                la::Chol ch(r.m);
                for (auto& z : objs[0].hidden)
                {
                    V d(n);
                    for (size_t i = 0; i < n; ++i)
                        d[i] = z[i] - r.xc[i];
                    ++c.checks;
                    if (!ch.ok || ch.quad(d) > 1 + 1e-5L)
                        c.violate("answer-lost", "a restored snapshot misses a point that was inside when it was taken");
                }
            }
            else if (op == "flag")
            {
                if (st.i(3) >= long(objs.size()))
                    continue;
                Obj& o = objs[size_t(st.i(3))];
                int w = int(st.i(1));
                bool v = st.i(2) != 0;
                o.s->flag(w, v);
                if (o.twin)
                    o.twin->flag(w, v);
                if (w == 0)
                    o.par = v;
                o.log.push_back([w, v](Space& q) { q.flag(w, v); });
                c.ev("flag %d %d", w, int(v));
            }
            else if (op == "copy")
            {
                if (st.i(1) >= long(objs.size()))
                    continue;
                Obj& o = objs[size_t(st.i(1))];
                Obj k;
                k.s = o.s->copy();
                k.log = o.log;
                k.par = o.par;
                objs.push_back(std::move(k));
                c.fault("snapshot-taken");
                c.ev("copy");
            }
            else if (op == "move")
            {
                if (st.i(1) >= long(objs.size()))
                    continue;
                Obj& o = objs[size_t(st.i(1))];
                o.s = o.s->moved();
                c.fault("region-moved");
                c.ev("move");
            }
            else if (op == "scribble")
            {
                if (st.i(1) >= long(objs.size()))
                    continue;
                objs[size_t(st.i(1))].s->scribble();
                c.fault("handed-out-array-written");
            }
            else if (op == "setxc")
            {
                if (st.i(1) >= long(objs.size()))
                    continue;
                Obj& o = objs[size_t(st.i(1))];
                auto x = o.s->xc();
                Rng q(st.u(2));
                for (auto& v : x)
                    v += 0.1 * q.normal();
                o.s->set_xc(x);
                ++c.checks;
                if (o.s->xc() != x)
                    c.violate("set-centre-ignored", "the centre set is not the centre reported");
                o.log.push_back([x](Space& s) { s.set_xc(x); });
                c.ev("setxc");
            }
            else if (op == "live")
                live(st, *objs[0].s, objs[0], sc, c, n);
            // ---- C04: every object answers like one that lived alone
            if (prop == "C04" && (op != "emit"))
                for (auto& o : objs)
                    alone(sc, variant, o, c, n);
        }
    }

    void alone(const Scenario& sc, int variant, Obj& o, Ctx& c, size_t n)
    {
        auto f = make(sc, variant);
        for (auto& l : o.log)
            l(*f);
        auto p = o.s->xc(), q = f->xc();
        ++c.checks;
        if (memcmp(p.data(), q.data(), 8 * n) != 0)
            c.violate("copy-not-independent", "%s: centre[0] %.17g; a region that ran alone has %.17g", f->name().c_str(), p[0], q[0]);
        Rng r(sc.u("hseed") ^ uint64_t(c.events));
        for (int k = 0; k < 3; ++k)
        {
            auto d = dbl(la::unit_dir(r.next(), n));
            // a probing cut of each kind on copies: verdict, size and centre must agree
            double t = f->probe(d);
            double b0 = r.u(-0.3, 0.6) * std::sqrt(t), b1 = b0 + 0.5 * std::sqrt(t);
            auto x = o.s->copy(), y = f->copy();
            Ans a = k == 2 ? x->up2(d, b0, b1) : x->up1(d, b0, k == 1);
            Ans b = k == 2 ? y->up2(d, b0, b1) : y->up1(d, b0, k == 1);
            same(c, "copy-not-independent", a, b, *x, *y);
            double u = x->probe(d), v = y->probe(d);
            if (memcmp(&u, &v, 8) != 0)
                c.violate("copy-not-independent", "shape differs from that of a region that ran alone: %.17g, expected %.17g", u, v);
        }
    }

    // faults have stopped: valid answers only, a ball of radius r around z is to be found
    void live(const Step& st, Space& s, Obj& o, const Scenario& sc, Ctx& c, size_t n)
    {
        (void)sc;
        Region r = observe(s);
        if (!finite(r) || !regime(r))
            throw EndRun();
        la::Chol ch(r.m);
        V ev = la::eigs(r.m);
        R lo = ev[0], hi = ev[0];
        for (R v : ev)
        {
            lo = std::min(lo, v);
            hi = std::max(hi, v);
        }
        if (hi / lo > 1e4L)
            return;
        R rad = sqrtl(lo) * R(st.d(3));
        V w = la::unit_dir(st.u(1), n), z(n);
        R f = st.d(2) * (1 - R(st.d(3)));
        for (size_t i = 0; i < n; ++i)
        {
            R v = 0;
            for (size_t j = 0; j <= i; ++j)
                v += ch.L(i, j) * w[j] * f;
            z[i] = r.xc[i] + v * ch.sc[i];
        }
        R bound = n == 1 ? logl(sqrtl(r.m(0, 0)) / rad) / logl(2.L) + 2 : 2 * (R(n) + 1) * (0.5L * ch.logdet - R(n) * logl(rad)) + 2;
        long q = 0;
        Rng rr(st.u(1));
        while (true)
        {
            auto x = s.xc();
            R d = 0;
            V g(n);
            for (size_t i = 0; i < n; ++i)
            {
                g[i] = R(x[i]) - z[i];
                d += g[i] * g[i];
            }
            d = sqrtl(d);
            ++q;
            c.simtime += 1;
            if (!(d > rad))
            {
                if (!std::isfinite(d))
                    c.violate("not-finite", "the centre is not finite");
                break;
            }
            ++c.checks;
            if (R(q) > bound && o.defect)
                return; // follows from the known finding
            if (R(q) > bound)
                c.violate("no-progress", "%s n=%zu: %ld queries without finding the target, bound %.1Lf", s.name().c_str(), n, q, bound);
            std::vector<double> gd(n);
            for (size_t i = 0; i < n; ++i)
                gd[i] = double(g[i] / d);
            double b = 0.;
            if (st.i(4) == 1)
                b = double((d - rad) * 0.999L);
            else if (st.i(4) == 2)
                b = double((d - rad) * R(rr.u()));
            const bool watch = s.name() == "stable" && !o.defect;
            Region before;
            if (watch)
                before = observe(s);
            Ans a = s.up1(gd, b, false);
            if (watch && a.st == CUTStatus::success)
            {
                RefStep rs = refstep(before, gd, b, 0., false);
                Region after = observe(s);
                if (finite(after) && known_defect(c, s, before, after, o.kappa, gd, rs))
                    o.defect = true;
                o.kappa *= rs.R2;
            }
            if (o.defect && (q > 400 || a.st != CUTStatus::success || !std::isfinite(s.xc()[0])))
                return; // follows from the known finding
            c.ev("live q=%ld d=%.17Lg %s", q, d, stname(a.st));
            if (a.st != CUTStatus::success)
                c.violate("no-progress", "%s: a valid cut was refused (%s)", s.name().c_str(), stname(a.st));
        }
        c.probe("target-found-after-faults");
    }

    void run_replicas(const Scenario& sc, Ctx& c)
    {
        const size_t n = size_t(sc.i("n"));
        std::vector<std::unique_ptr<Space>> rep;
        for (int v = 0; v < 4; ++v)
            rep.push_back(make(sc, v));
        rep[1]->flag(1, true); // 0 deferred, 1 not deferred, 2 stable, 3 vector start
        for (auto& s : rep)
            s->flag(0, sc.i("par") != 0);
        bool par = sc.i("par") != 0;
        R kappa = sc.s("init") == "one" ? first_val(sc) : 1;
        bool apart = false; // the stable replica went the way of the known finding
        std::map<int, Cut> cuts;
        R scale = 0;
        auto compare = [&]() {
            Region a = observe(*rep[0]);
            if (!finite(a) || !regime(a, 1e12L, 1e6L))
                throw EndRun();
            // the cuts are relative to the centre, so rounding of early centres is never
            // corrected: stay where it cannot add up to anything visible
            V ev = la::eigs(a.m);
            for (R v : a.xc)
                scale = std::max(scale, fabsl(v));
            for (R v : ev)
                scale = std::max(scale, sqrtl(v));
            for (R v : ev)
                if (scale > 1e7L * sqrtl(v))
                    throw EndRun();
            for (int k = 1; k < 4; ++k)
            {
                if (k == 2 && apart)
                    continue;
                Region b = observe(*rep[size_t(k)]);
                ++c.checks;
                R d = deviation(a, b);
                if (d > 1e-5L)
                    c.violate("replicas-differ", "%s replica %d deviates from the plain ellipsoid by %.6Lg", rep[size_t(k)]->name().c_str(), k, d);
            }
        };
        compare();
        auto feed = [&](const std::vector<double>& g, double b0, double b1, bool p, bool aslist) {
            Region before = observe(*rep[0]);
            RefStep rs = refstep(before, g, b0, b1, p && par);
            bool odd = rs.ambiguous;
            std::vector<Ans> a;
            Region sbefore = observe(*rep[2]);
            for (size_t k = 0; k < rep.size(); ++k)
                a.push_back(p ? rep[k]->up2(g, b0, b1) : rep[k]->up1(g, b0, aslist != (k % 2 == 1)));
            c.ev("cut b0=%.17g b1=%.17g par=%d -> %s %.17g", b0, b1, int(p), stname(a[0].st), a[0].tsq);
            c.token(stname(a[0].st));
            c.probe(std::string("verdict-") + stname(a[0].st));
            if (a[0].st != CUTStatus::success)
                c.fault("refused-cut");
            { // the stable replica on its own
                if (!finite(sbefore) || !regime(sbefore))
                    throw EndRun();
                RefStep ss = refstep(sbefore, g, b0, b1, p && par);
                ++c.checks;
                R want = ss.tau * ss.tau;
                if (!ss.ambiguous && ss.minimal && !ss.outside && a[2].st != ss.st)
                    c.violate("replicas-differ", "the stable ellipsoid says %s about a cut of its region, the plain one would say %s", stname(a[2].st),
                        stname(ss.st));
                if (!(fabsl(a[2].tsq - want) <= 1e-7L * want))
                    c.violate("replicas-differ", "the stable ellipsoid reports size %.17g of its region, the plain one would report %.17Lg", a[2].tsq, want);
                settle(ss);
                if (a[2].st == CUTStatus::success && ss.st == CUTStatus::success)
                {
                    Region sa = observe(*rep[2]);
                    if (finite(sa) && known_defect(c, *rep[2], sbefore, sa, kappa, g, ss))
                        apart = true;
                    else if (deviation(apply(sbefore, g, ss), sa) > 1e-6L)
                        c.violate("replicas-differ", "the stable ellipsoid makes of its region what the plain one would not (deviation %.6Lg)",
                            deviation(apply(sbefore, g, ss), sa));
                    kappa *= ss.R2;
                    if (!finite(sa) || !(apart ? regime(sa, 1e14L, 1e5L) : regime(sa)))
                        throw EndRun();
                }
                else if (deviation(sbefore, observe(*rep[2])) > 1e-9L)
                    c.violate("replicas-differ", "a refused cut changed the stable ellipsoid");
            }
            for (size_t k = 1; k < a.size(); ++k)
            {
                if (k == 2 && apart)
                    continue;
                ++c.checks;
                // thresholds are compared with accumulated rounding: stay clear of them
                if (a[k].st != a[0].st)
                {
                    R al = R(b0) / rs.tau, be = R(b1) / rs.tau, near = 1e-6L;
                    bool close = odd || fabsl(al - 1) < near || fabsl(1 + R(n) * al) < near
                        || (p && (fabsl(fabsl(be) - 1) < near || fabsl(1 + R(n) * al * be) < near || fabsl(be - al) < near || fabsl(al + 1) < near));
                    if (!close)
                        c.violate("replicas-differ", "%s replica %zu says %s, the plain ellipsoid %s (b0/tau=%.9Lg b1/tau=%.9Lg par=%d)",
                            rep[k]->name().c_str(), k, stname(a[k].st), stname(a[0].st), al, be, int(p));
                    throw EndRun();
                }
                if (!(fabs(a[k].tsq - a[0].tsq) <= 1e-6 * fabs(a[0].tsq)))
                    c.violate("replicas-differ", "%s replica %zu reports size %.17g, the plain ellipsoid %.17g", rep[k]->name().c_str(), k, a[k].tsq,
                        a[0].tsq);
            }
            compare();
        };
        for (auto& st : sc.steps)
        {
            c.simtime += 1;
            const std::string& op = st.op();
            if (op == "emit")
            {
                Region r = observe(*rep[0]);
                Cut k;
                k.g = direction(r, st.str(2), st.u(3), st.d(4));
                V gg(k.g.begin(), k.g.end());
                R tau = sqrtl(la::dot(gg, la::mul(r.m, gg)));
                k.b0 = double(R(st.d(5)) * tau);
                k.par = st.d(6) >= 0;
                k.b1 = double((R(st.d(5)) + R(st.d(6))) * tau);
                k.at = rep[0]->xc();
                k.t = c.simtime;
                cuts[int(st.i(1))] = k;
            }
            else if (op == "lose")
            {
                c.fault("cut-lost");
                cuts.erase(int(st.i(1)));
            }
            else if (op == "del")
            {
                auto it = cuts.find(int(st.i(1)));
                if (it == cuts.end())
                    continue;
                Cut& k = it->second;
                Region r = observe(*rep[0]);
                R sh = 0;
                for (size_t i = 0; i < n; ++i)
                    sh += R(k.g[i]) * (r.xc[i] - R(k.at[i]));
                double b0 = double(R(k.b0) + sh), b1 = double(R(k.b1) + sh);
                if (k.delivered)
                    c.fault("cut-duplicated");
                if (k.t < c.simtime - 2)
                    c.fault("cut-delayed");
                ++k.delivered;
                V gg(k.g.begin(), k.g.end());
                R tau = sqrtl(la::dot(gg, la::mul(r.m, gg)));
                if ((R(b0) / tau > 0.97L && R(b0) / tau <= 1.001L) || (k.par && (b1 - b0) / tau < 0.02L))
                    continue;
                feed(k.g, b0, b1, k.par, st.i(4) != 0);
            }
            else if (op == "bad")
            {
                Region r = observe(*rep[0]);
                auto g = direction(r, "m", st.u(3), st.d(5));
                V gg(g.begin(), g.end());
                R tau = sqrtl(la::dot(gg, la::mul(r.m, gg)));
                R e = std::max<R>(st.d(4), 1e-4L);
                switch (st.i(2))
                {
                    case 0: feed(g, double(tau * (1 + e)), 0, false, false); break;
                    case 1: feed(g, double(-tau * (1 + e) / R(n)), 0, false, false); break;
                    case 2: feed(g, double(-tau * std::max<R>(0, 1 - e) / R(n)), 0, false, true); break;
                    case 3: feed(g, double(tau * inverted(st.u(3), n)), double(tau * (inverted(st.u(3), n) - std::min<R>(e, 0.9L + inverted(st.u(3), n)))), true, false); break;
                    case 4: feed(g, double(-sqrtl(std::min<R>(0.99L * R(n), 1 + e) / R(n)) * tau),
                        double(sqrtl(std::min<R>(0.99L * R(n), 1 + e) / R(n)) * tau), true, false); break;
                }
            }
            else if (op == "flag")
            {
                if (st.i(1) == 0)
                {
                    par = st.i(2) != 0;
                    for (auto& s : rep)
                        s->flag(0, par);
                }
                else
                { // switching the deferral must not be visible
                    rep[1]->flag(1, st.i(2) != 0);
                    rep[2]->flag(1, st.i(2) == 0);
                    c.fault("mode-switched");
                }
            }
        }
    }
};

int main(int argc, char** argv)
{
    SpaceWorld w;
    return sim_main(argc, argv, w);
}
