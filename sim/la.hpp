// Small long-double linear algebra for the reference models (no xtensor, no BLAS).
#pragma once
#include "core.hpp"

namespace la
{
using R = long double;
using V = std::vector<R>;
struct M
{
    size_t n = 0;
    std::vector<R> a;
    M() { }
    explicit M(size_t k) : n(k), a(k * k, 0.L) { }
    R& operator()(size_t i, size_t j) { return a[i * n + j]; }
    R operator()(size_t i, size_t j) const { return a[i * n + j]; }
};
inline R dot(const V& x, const V& y)
{
    R s = 0;
    for (size_t i = 0; i < x.size(); ++i)
        s += x[i] * y[i];
    return s;
}
inline V mul(const M& m, const V& x)
{
    V y(m.n, 0.L);
    for (size_t i = 0; i < m.n; ++i)
        for (size_t j = 0; j < m.n; ++j)
            y[i] += m(i, j) * x[j];
    return y;
}
inline V axpy(R a, const V& x, const V& y)
{
    V z(y);
    for (size_t i = 0; i < x.size(); ++i)
        z[i] += a * x[i];
    return z;
}
// Cholesky of the diagonally equilibrated matrix; false when not positive definite
struct Chol
{
    bool ok = false;
    size_t n = 0;
    M L;
    V sc;
    R logdet = 0, pivmin = 1, pivmax = 1;
    explicit Chol(const M& m) : n(m.n), L(m.n), sc(m.n)
    {
        for (size_t i = 0; i < n; ++i)
        {
            if (!(m(i, i) > 0) || !std::isfinite(m(i, i)))
                return;
            sc[i] = sqrtl(m(i, i));
            logdet += 2 * logl(sc[i]);
        }
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j <= i; ++j)
            {
                R s = m(i, j) / (sc[i] * sc[j]);
                for (size_t k = 0; k < j; ++k)
                    s -= L(i, k) * L(j, k);
                if (i == j)
                {
                    if (!(s > 0))
                        return;
                    pivmin = std::min(pivmin, s);
                    L(i, i) = sqrtl(s);
                    logdet += logl(s);
                }
                else
                    L(i, j) = s / L(j, j);
            }
        ok = true;
    }
    // x' M^-1 x
    R quad(const V& x) const
    {
        V y(n);
        R q = 0;
        for (size_t i = 0; i < n; ++i)
        {
            R s = x[i] / sc[i];
            for (size_t k = 0; k < i; ++k)
                s -= L(i, k) * y[k];
            y[i] = s / L(i, i);
            q += y[i] * y[i];
        }
        return q;
    }
};
inline V unit_dir(uint64_t seed, size_t n)
{
    sim::Rng r(seed);
    V v(n);
    R s = 0;
    do
    {
        s = 0;
        for (auto& x : v)
        {
            x = r.normal();
            s += x * x;
        }
    } while (s < 1e-3L);
    for (auto& x : v)
        x /= sqrtl(s);
    return v;
}
// smallest eigenvalue of a symmetric matrix (Jacobi)
inline V eigs(M a, M* vec = nullptr)
{
    const size_t n = a.n;
    M v(n);
    for (size_t i = 0; i < n; ++i)
        v(i, i) = 1;
    for (int sweep = 0; sweep < 60; ++sweep)
    {
        R off = 0, dg = 0;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j)
                (i == j ? dg : off) += a(i, j) * a(i, j);
        if (off <= 1e-34L * (dg + 1e-300L))
            break;
        for (size_t p = 0; p < n; ++p)
            for (size_t q = p + 1; q < n; ++q)
            {
                if (a(p, q) == 0)
                    continue;
                R th = (a(q, q) - a(p, p)) / (2 * a(p, q));
                R t = (th >= 0 ? 1.L : -1.L) / (fabsl(th) + sqrtl(th * th + 1));
                R c = 1 / sqrtl(t * t + 1), s = t * c;
                for (size_t k = 0; k < n; ++k)
                {
                    R x = a(k, p), y = a(k, q);
                    a(k, p) = c * x - s * y;
                    a(k, q) = s * x + c * y;
                }
                for (size_t k = 0; k < n; ++k)
                {
                    R x = a(p, k), y = a(q, k);
                    a(p, k) = c * x - s * y;
                    a(q, k) = s * x + c * y;
                }
                for (size_t k = 0; k < n; ++k)
                {
                    R x = v(k, p), y = v(k, q);
                    v(k, p) = c * x - s * y;
                    v(k, q) = s * x + c * y;
                }
            }
    }
    V e(n);
    for (size_t i = 0; i < n; ++i)
        e[i] = a(i, i);
    if (vec)
        *vec = v;
    return e;
}
} // namespace la
