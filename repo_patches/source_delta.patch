From 7b5b080e962efdc6dca5b385b40d58357b02f8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 01/15] fix: ell: no 0/0 for parallel cuts symmetric about the
 center or of zero offsets

---
 lib/src/ell.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/src/ell.cpp b/lib/src/ell.cpp
index 7f57f1f..3c10297 100644
--- a/lib/src/ell.cpp
+++ b/lib/src/ell.cpp
@@ -50,8 +50,11 @@ auto ell::_calc_ll_core(const double& b0, const double& b1) -> CUTStatus
     const auto bav = bsum / 2.;
     const auto tempn = this->_halfN * bsumn * bdiff;
     const auto xi = std::sqrt(t0n * t1n + tempn * tempn);
-    this->_sigma =
-        this->_c3 + (1. + b0b1n - xi) / (bsumn * bav) / this->_nPlus1;
+    // (1 + b0b1n - xi) / (bsumn * bav), with the factor bsum^2 cancelled out:
+    // it is 0/0 when the two cuts are symmetric about the center
+    const auto temp = this->_halfN * bdiff;
+    const auto w = temp * (temp / this->_tsq);
+    this->_sigma = this->_c3 + this->_c2 * (1. - w) / (1. + b0b1n + xi);
     this->_rho = this->_sigma * bav;
     this->_delta = this->_c1 * ((t0n + t1n) / 2. + xi / this->_nFloat);
     return CUTStatus::success;
@@ -68,7 +71,9 @@ void ell::_calc_ll_cc(const double& b1, const double& b1sqn)
 {
     const auto temp = this->_halfN * b1sqn;
     const auto xi = std::sqrt(1. - b1sqn + temp * temp);
-    this->_sigma = this->_c3 + this->_c2 * (1. - xi) / b1sqn;
+    // (1 - xi) / b1sqn, with the factor b1sqn cancelled out (it may be zero)
+    this->_sigma =
+        this->_c3 + this->_c2 * (1. - this->_halfN * temp) / (1. + xi);
     this->_rho = this->_sigma * b1 / 2;
     this->_delta = this->_c1 * (1. - b1sqn / 2. + xi / this->_nFloat);
 }
-- 
2.43.0


From c45e46c7f4b1c5e04c6a8d3b173e61d910df2c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 02/15] fix: cutting_plane_q: ask for the alternative cut after
 a cut without effect

---
 lib/include/ellcpp/cutting_plane.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/ellcpp/cutting_plane.hpp b/lib/include/ellcpp/cutting_plane.hpp
index 56d5bc9..12571ac 100644
--- a/lib/include/ellcpp/cutting_plane.hpp
+++ b/lib/include/ellcpp/cutting_plane.hpp
@@ -141,11 +141,11 @@ auto cutting_plane_q(
     const auto t_orig = t;
     decltype(S.xc()) x_best;
     auto status = CUTStatus::nosoln; // note!!!
+    auto retry = false;
 
     auto niter = 0U;
     while (++niter != options.max_it)
     {
-        auto retry = (status == CUTStatus::noeffect);
         const auto [cut, x0, shrunk, more_alt] = Omega(S.xc(), t, retry);
         if (shrunk)
         { // best t obtained
@@ -160,6 +160,7 @@ auto cutting_plane_q(
                 break; // no more alternative cut
             }
         }
+        retry = (cutstatus == CUTStatus::noeffect); // ask for another cut
         if (cutstatus == CUTStatus::nosoln)
         {
             status = cutstatus;
-- 
2.43.0


From 8f1ec7f68c994344948a67522185553ae9a6ab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 03/15] fix: cutting_plane: max_it = 0 is a budget of nothing,
 not of 2^32 queries

---
 lib/include/ellcpp/cutting_plane.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/ellcpp/cutting_plane.hpp b/lib/include/ellcpp/cutting_plane.hpp
index 12571ac..fc0b97e 100644
--- a/lib/include/ellcpp/cutting_plane.hpp
+++ b/lib/include/ellcpp/cutting_plane.hpp
@@ -39,7 +39,7 @@ auto cutting_plane_feas(
     auto status = CUTStatus::success;
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         const auto cut = Omega(S.xc()); // query the oracle at S.xc()
         if (!cut)
@@ -83,7 +83,7 @@ auto cutting_plane_dc(
     auto status = CUTStatus::success;
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         const auto [cut, shrunk] = Omega(S.xc(), t);
         if (shrunk)
@@ -144,7 +144,7 @@ auto cutting_plane_q(
     auto retry = false;
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         const auto [cut, x0, shrunk, more_alt] = Omega(S.xc(), t, retry);
         if (shrunk)
-- 
2.43.0


From 2915b71e69cbd209aa1b0752c14ad530883b5d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 04/15] fix: qmi_oracle: take the columns of F_k in the
 gradient, as the matrix does

---
 lib/src/qmi_oracle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/qmi_oracle.cpp b/lib/src/qmi_oracle.cpp
index 79b7285..3bffbb4 100644
--- a/lib/src/qmi_oracle.cpp
+++ b/lib/src/qmi_oracle.cpp
@@ -53,8 +53,8 @@ std::optional<Cut> qmi_oracle::operator()(const Arr& x)
     auto g = zeros({this->_nx});
     for (auto k = 0U; k != this->_nx; ++k)
     {
-        const auto Fkp = ROW(this->_F[k], xt::range(start, stop));
-        g(k) = -2 * dot(dot(v, Fkp), Av)();
+        const auto Fkp = Arr {COLUMN(this->_F[k], xt::range(start, stop))};
+        g(k) = -2 * dot(dot(Fkp, v), Av)();
     }
     return {{std::move(g), ep}};
 }
-- 
2.43.0


From b182d70366de014faf31df2a5cbf89d5ffec815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 05/15] fix: create_2d_isotropic: leave the process-wide random
 engine alone

---
 lib/src/lsq_corr_ell.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/lsq_corr_ell.cpp b/lib/src/lsq_corr_ell.cpp
index 995339c..741950c 100644
--- a/lib/src/lsq_corr_ell.cpp
+++ b/lib/src/lsq_corr_ell.cpp
@@ -51,7 +51,7 @@ Arr create_2d_isotropic(const Arr& s, size_t N = 3000U)
     const auto sdkern = 0.3;  // width of kernel
     const auto var = 2.;      // standard derivation
     const auto tau = 0.00001; // standard derivation of white noise
-    xt::random::seed(5);
+    auto engine = xt::random::default_engine_type(5); // not the shared one
 
     auto Sig = zeros({n, n});
     for (auto i = 0U; i != n; ++i)
@@ -69,8 +69,8 @@ Arr create_2d_isotropic(const Arr& s, size_t N = 3000U)
     auto Y = zeros({n, n});
     for (auto k = 0U; k != N; ++k)
     {
-        auto x = var * xt::random::randn<double>({n});
-        auto y = dot(A, x) + tau * xt::random::randn<double>({n});
+        auto x = var * xt::random::randn<double>({n}, 0., 1., engine);
+        auto y = dot(A, x) + tau * xt::random::randn<double>({n}, 0., 1., engine);
         // Arr y = dot(A, x);
         Y += xt::linalg::outer(y, y);
     }
-- 
2.43.0


From 97310ef6c85020b4815cd27bda7dc2aef8f20581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 06/15] fix: ell_stable: no division by zero for a cut that
 leaves the shape as it is

---
 lib/src/ell_stable.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/ell_stable.cpp b/lib/src/ell_stable.cpp
index 8ba9199..37acbe0 100644
--- a/lib/src/ell_stable.cpp
+++ b/lib/src/ell_stable.cpp
@@ -71,17 +71,17 @@ auto ell_stable::update(const std::tuple<Arr, T>& cut) -> std::tuple<CUTStatus,
 
     // rank-one update: 3*n + (n-1)*n/2
     // const auto r = this->_sigma / omega;
-    const auto mu = this->_sigma / (1. - this->_sigma);
-    auto oldt = omega / mu; // initially
+    // in units of 1/sigma, because sigma may be zero
+    auto oldt = (1. - this->_sigma) * omega; // initially
     const auto m = this->_n - 1;
     for (auto j = 0; j != m; ++j)
     {
         // p=sqrt(k)*vv(j);
         // const auto p = invLg(j);
         // const auto mup = mu * p;
-        const auto t = oldt + gQg(j);
+        const auto t = oldt + this->_sigma * gQg(j);
         // this->_Q(j, j) /= t; // update invD
-        const auto beta2 = invDinvLg(j) / t;
+        const auto beta2 = this->_sigma * invDinvLg(j) / t;
         this->_Q(j, j) *= oldt / t; // update invD
         for (auto l = j + 1; l != this->_n; ++l)
         {
@@ -93,7 +93,7 @@ auto ell_stable::update(const std::tuple<Arr, T>& cut) -> std::tuple<CUTStatus,
 
     // const auto p = invLg(n1);
     // const auto mup = mu * p;
-    const auto t = oldt + gQg(m);
+    const auto t = oldt + this->_sigma * gQg(m);
     this->_Q(m, m) *= oldt / t; // update invD
 
 
-- 
2.43.0


From bc2f6e591ea4665bda92f9d991a3bad2cf0e52fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 07/15] fix: negCycleFinder: a cycle of zero weight is not
 negative because of rounding

---
 lib/include/netoptim/neg_cycle.hpp | 34 +++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/lib/include/netoptim/neg_cycle.hpp b/lib/include/netoptim/neg_cycle.hpp
index 0098769..7d559f5 100644
--- a/lib/include/netoptim/neg_cycle.hpp
+++ b/lib/include/netoptim/neg_cycle.hpp
@@ -5,7 +5,10 @@
 Negative cycle detection for weighed graphs.
 **/
 #include <cassert>
+#include <cmath>
+#include <limits>
 #include <py2cpp/py2cpp.hpp>
+#include <type_traits>
 #include <vector>
 
 /*!
@@ -73,6 +76,35 @@ class negCycleFinder
     }
 
   private:
+    /*!
+     * @brief Whether the new distance is really less than the old one
+     *
+     * With floating-point weights a cycle of zero weight may appear negative
+     * by rounding. Improvements within rounding are therefore ignored.
+     *
+     * @tparam T
+     * @tparam U
+     * @tparam W
+     * @param[in] d new distance
+     * @param[in] old old distance
+     * @param[in] wt weight of the edge
+     * @return true
+     * @return false
+     */
+    template <typename T, typename U, typename W>
+    static auto _is_less(const T& d, const U& old, const W& wt) -> bool
+    {
+        if constexpr (std::is_floating_point<T>::value)
+        {
+            const auto eps = 1024 * std::numeric_limits<T>::epsilon();
+            return old - d > eps * (std::abs(d) + std::abs(wt));
+        }
+        else
+        {
+            return old > d;
+        }
+    }
+
     /*!
      * @brief Find a cycle on policy graph
      *
@@ -136,7 +168,7 @@ class negCycleFinder
             const auto wt = get_weight(e);
             const auto d = dist[u] + wt;
 
-            if (dist[v] > d)
+            if (this->_is_less(d, dist[v], wt))
             {
                 this->_pred[v] = u;
                 this->_edge[v] = e; // ???
-- 
2.43.0


From 14ef1d46fb26644f1dd74e6b18fcb579bc69d33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:41 +0000
Subject: [PATCH 08/15] fix: oracles raise the best value only when nothing can
 fail any more

---
 lib/include/ellcpp/oracles/optscaling_oracle.hpp |  5 +++--
 lib/src/lowpass_oracle.cpp                       |  6 ++++--
 lib/src/lsq_corr_ell.cpp                         | 13 +++++++++----
 lib/src/profit_oracle.cpp                        | 13 +++++++++----
 4 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/lib/include/ellcpp/oracles/optscaling_oracle.hpp b/lib/include/ellcpp/oracles/optscaling_oracle.hpp
index b45d824..48a5290 100644
--- a/lib/include/ellcpp/oracles/optscaling_oracle.hpp
+++ b/lib/include/ellcpp/oracles/optscaling_oracle.hpp
@@ -129,8 +129,9 @@ class optscaling_oracle
         auto fj = s - t;
         if (fj < 0)
         {
-            t = s;
-            return {{Arr {1., -1.}, 0.}, true};
+            auto res = std::tuple<Cut, bool> {Cut {Arr {1., -1.}, 0.}, true};
+            t = s; // last, when nothing can fail any more
+            return res;
         }
         return {{Arr {1., -1.}, fj}, false};
     }
diff --git a/lib/src/lowpass_oracle.cpp b/lib/src/lowpass_oracle.cpp
index c25b26d..d30a4eb 100644
--- a/lib/src/lowpass_oracle.cpp
+++ b/lib/src/lowpass_oracle.cpp
@@ -119,9 +119,11 @@ auto lowpass_oracle::operator()(const Arr& x, double& Spsq) const
 
     // Begin objective function
     // Spsq, imax = w.max(), w.argmax(); // update best so far Spsq
-    Spsq = fmax;
     Arr f {0., fmax}; // ???
     // f = 0
     Arr g = xt::view(this->_As, imax, xt::all());
-    return {{std::move(g), std::move(f)}, true};
+    auto res = std::tuple<ParallelCut, bool> {
+        ParallelCut {std::move(g), std::move(f)}, true};
+    Spsq = fmax; // last, when nothing can fail any more
+    return res;
 }
diff --git a/lib/src/lsq_corr_ell.cpp b/lib/src/lsq_corr_ell.cpp
index 741950c..4d2209b 100644
--- a/lib/src/lsq_corr_ell.cpp
+++ b/lib/src/lsq_corr_ell.cpp
@@ -198,8 +198,9 @@ class lsq_oracle
             return {{std::move(g), f0}, false};
         }
 
-        t = x(n - 1);
-        return {{std::move(g), 0.}, true};
+        auto res = std::tuple<Cut, bool> {Cut {std::move(g), 0.}, true};
+        t = x(n - 1); // last, when nothing can fail any more
+        return res;
     }
 };
 
@@ -316,7 +317,6 @@ class mle_oracle
 
         if (f < 0)
         {
-            t = f1;
             f = 0.;
             shrunk = true;
         }
@@ -333,7 +333,12 @@ class mle_oracle
                     xt::view(SFsi, k, xt::all()), xt::view(SY, xt::all(), k))();
             }
         }
-        return {{std::move(g), f}, shrunk};
+        auto res = std::tuple<Cut, bool> {Cut {std::move(g), f}, shrunk};
+        if (shrunk)
+        {
+            t = f1; // last, when nothing can fail any more
+        }
+        return res;
     }
 };
 
diff --git a/lib/src/profit_oracle.cpp b/lib/src/profit_oracle.cpp
index 5e13af5..7bc0dad 100644
--- a/lib/src/profit_oracle.cpp
+++ b/lib/src/profit_oracle.cpp
@@ -30,9 +30,10 @@ auto profit_oracle::operator()(const Arr& y, double& t) const
     if (fj < 0.)
     {
         te = std::exp(log_Cobb);
-        t = te - vx;
         auto g = Arr {(this->_v * x) / te - this->_a};
-        return {{std::move(g), 0.}, true};
+        auto res = std::tuple<Cut, bool> {Cut {std::move(g), 0.}, true};
+        t = te - vx; // last, when nothing can fail any more
+        return res;
     }
     auto g = Arr {(this->_v * x) / te - this->_a};
     return {{std::move(g), fj}, false};
@@ -59,8 +60,12 @@ std::tuple<Cut, Arr, bool, bool> profit_q_oracle::operator()(
         }
         this->_yd = xt::log(x);
     }
-    auto [cut, shrunk] = this->_P(this->_yd, t);
+    auto t1 = t;
+    auto [cut, shrunk] = this->_P(this->_yd, t1);
     auto& [g, h] = cut;
     h += xt::linalg::dot(g, this->_yd - y)();
-    return {std::move(cut), this->_yd, shrunk, !retry};
+    auto res = std::tuple<Cut, Arr, bool, bool> {
+        std::move(cut), this->_yd, shrunk, !retry};
+    t = t1; // last, when nothing can fail any more
+    return res;
 }
-- 
2.43.0


From 742ad9084b6291b755fff4011f9cfc13bfb15886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:31 +0000
Subject: [PATCH 09/15] fix: optimisation drivers return a defined number when
 nothing better was found

---
 lib/include/ellcpp/cutting_plane.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/ellcpp/cutting_plane.hpp b/lib/include/ellcpp/cutting_plane.hpp
index fc0b97e..ec18e1a 100644
--- a/lib/include/ellcpp/cutting_plane.hpp
+++ b/lib/include/ellcpp/cutting_plane.hpp
@@ -79,7 +79,7 @@ auto cutting_plane_dc(
     Oracle&& Omega, Space&& S, opt_type&& t, const Options& options = Options())
 {
     const auto t_orig = t;
-    decltype(S.xc()) x_best;
+    decltype(S.xc()) x_best {}; // a number must not be left undefined
     auto status = CUTStatus::success;
 
     auto niter = 0U;
@@ -139,7 +139,7 @@ auto cutting_plane_q(
     Oracle&& Omega, Space&& S, opt_type&& t, const Options& options = Options())
 {
     const auto t_orig = t;
-    decltype(S.xc()) x_best;
+    decltype(S.xc()) x_best {}; // a number must not be left undefined
     auto status = CUTStatus::nosoln; // note!!!
     auto retry = false;
 
-- 
2.43.0


From 61c3eef5a7da254746e559d44ec02e3298539fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 10/15] fix: a moved directed graph refers to its own
 successors

---
 lib/include/xnetwork/classes/digraphs.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index ddd3260..ac31f1f 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -242,6 +242,12 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     {
     }
 
+    DiGraphS(DiGraphS&& G) noexcept
+        : _Base {std::move(G)}
+        , _succ {_Base::_adj} // not that of G
+    {
+    }
+
     /// @property
     /*! DiGraphS adjacency object holding the neighbors of each node.
 
-- 
2.43.0


From a03be0e0864f1b0192316d84dfa86e88ab9f7e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 11/15] fix: graphs count an edge that is added again only once

---
 lib/include/xnetwork/classes/digraphs.hpp | 9 ++++++---
 lib/include/xnetwork/classes/graph.hpp    | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index ac31f1f..5421824 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -349,9 +349,10 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
         // add the edge
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
+        const auto size = this->_succ[u].size();
         this->_succ[u].insert(v);
         // this->_prev[v].insert(u);
-        this->_num_of_edges += 1;
+        this->_num_of_edges += this->_succ[u].size() - size; // may be there
     }
 
     template <typename U = key_type>
@@ -367,9 +368,10 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
         // datadict.update(attr);
         using T = typename adjlist_t::mapped_type;
         auto data = this->_adj[u].get(v, T {});
+        const auto size = this->_succ[u].size();
         this->_succ[u][v] = data;
         // this->_prev[v][u] = data;
-        this->_num_of_edges += 1;
+        this->_num_of_edges += this->_succ[u].size() - size; // may be there
     }
 
     template <typename T>
@@ -377,8 +379,9 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     {
         assert(this->_node.contains(u));
         assert(this->_node.contains(v));
+        const auto size = this->_succ[u].size();
         this->_succ[u][v] = data;
-        this->_num_of_edges += 1;
+        this->_num_of_edges += this->_succ[u].size() - size; // may be there
     }
 
     template <typename C1, typename C2>
diff --git a/lib/include/xnetwork/classes/graph.hpp b/lib/include/xnetwork/classes/graph.hpp
index d3eb9db..48997b4 100644
--- a/lib/include/xnetwork/classes/graph.hpp
+++ b/lib/include/xnetwork/classes/graph.hpp
@@ -625,9 +625,10 @@ class Graph : public object
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
         // set
+        const auto size = this->_adj[u].size();
         this->_adj[u].insert(v);
         this->_adj[v].insert(u);
-        this->_num_of_edges += 1;
+        this->_num_of_edges += this->_adj[u].size() - size; // may be there
     }
 
     template <typename U = key_type>
@@ -643,9 +644,10 @@ class Graph : public object
         // datadict.update(attr);
         using T = typename adjlist_t::mapped_type;
         auto data = this->_adj[u].get(v, T {});
+        const auto size = this->_adj[u].size();
         this->_adj[u][v] = data;
         this->_adj[v][u] = data; // ???
-        this->_num_of_edges += 1;
+        this->_num_of_edges += this->_adj[u].size() - size; // may be there
     }
 
     template <typename T>
@@ -653,9 +655,10 @@ class Graph : public object
     {
         assert(this->_node.contains(u));
         assert(this->_node.contains(v));
+        const auto size = this->_adj[u].size();
         this->_adj[u][v] = data;
         this->_adj[v][u] = data;
-        this->_num_of_edges += 1;
+        this->_num_of_edges += this->_adj[u].size() - size; // may be there
     }
 
     template <typename C1, typename C2>
-- 
2.43.0


From d5647aee5da3268f2f1a8b29616295fb65e4ff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 12/15] fix: an undirected edge that cannot be added leaves no
 half of it behind

---
 lib/include/xnetwork/classes/graph.hpp | 39 ++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/lib/include/xnetwork/classes/graph.hpp b/lib/include/xnetwork/classes/graph.hpp
index 48997b4..f0931f8 100644
--- a/lib/include/xnetwork/classes/graph.hpp
+++ b/lib/include/xnetwork/classes/graph.hpp
@@ -627,7 +627,18 @@ class Graph : public object
         // set
         const auto size = this->_adj[u].size();
         this->_adj[u].insert(v);
-        this->_adj[v].insert(u);
+        try
+        {
+            this->_adj[v].insert(u);
+        }
+        catch (...)
+        {
+            if (this->_adj[u].size() != size)
+            {
+                this->_adj[u].erase(v); // no edge with one end
+            }
+            throw;
+        }
         this->_num_of_edges += this->_adj[u].size() - size; // may be there
     }
 
@@ -646,7 +657,18 @@ class Graph : public object
         auto data = this->_adj[u].get(v, T {});
         const auto size = this->_adj[u].size();
         this->_adj[u][v] = data;
-        this->_adj[v][u] = data; // ???
+        try
+        {
+            this->_adj[v][u] = data; // ???
+        }
+        catch (...)
+        {
+            if (this->_adj[u].size() != size)
+            {
+                this->_adj[u].erase(v); // no edge with one end
+            }
+            throw;
+        }
         this->_num_of_edges += this->_adj[u].size() - size; // may be there
     }
 
@@ -657,7 +679,18 @@ class Graph : public object
         assert(this->_node.contains(v));
         const auto size = this->_adj[u].size();
         this->_adj[u][v] = data;
-        this->_adj[v][u] = data;
+        try
+        {
+            this->_adj[v][u] = data;
+        }
+        catch (...)
+        {
+            if (this->_adj[u].size() != size)
+            {
+                this->_adj[u].erase(v); // no edge with one end
+            }
+            throw;
+        }
         this->_num_of_edges += this->_adj[u].size() - size; // may be there
     }
 
-- 
2.43.0


From 66487eeba28ab6c0cc85cb285b2575e1a5fe644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 13/15] fix: a cleared graph has no nodes and no edges

---
 lib/include/xnetwork/classes/digraphs.hpp | 3 ++-
 lib/include/xnetwork/classes/graph.hpp    | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index 5421824..44e8f1b 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -548,7 +548,8 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     {
         this->_succ.clear();
         // this->_pred.clear()
-        // this->_node.clear();
+        this->_node = nodeview_t {};
+        this->_num_of_edges = 0;
         this->graph.clear();
     }
 
diff --git a/lib/include/xnetwork/classes/graph.hpp b/lib/include/xnetwork/classes/graph.hpp
index f0931f8..6f88aeb 100644
--- a/lib/include/xnetwork/classes/graph.hpp
+++ b/lib/include/xnetwork/classes/graph.hpp
@@ -742,7 +742,7 @@ class Graph : public object
         true
 
          */
-        return this->_adj[u].contains(v);
+        return this->_node.contains(u) && this->_adj[u].contains(v);
     }
 
     auto degree(const Node& n) const
@@ -872,7 +872,8 @@ class Graph : public object
 
          */
         this->_adj.clear();
-        // this->_node.clear();
+        this->_node = nodeview_t {};
+        this->_num_of_edges = 0;
         this->graph.clear();
     }
 
-- 
2.43.0


From a5f58d4ff45f2260a51fd55399474432911c0789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 14/15] fix: the name given to a graph can be read back

---
 lib/include/xnetwork/classes/graph.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/include/xnetwork/classes/graph.hpp b/lib/include/xnetwork/classes/graph.hpp
index 6f88aeb..f326498 100644
--- a/lib/include/xnetwork/classes/graph.hpp
+++ b/lib/include/xnetwork/classes/graph.hpp
@@ -4,6 +4,7 @@
 #include <boost/utility/string_view.hpp>
 #include <cassert>
 #include <py2cpp/py2cpp.hpp>
+#include <string>
 #include <type_traits>
 #include <vector>
 #include <xnetwork/classes/coreviews.hpp> // import AtlasView, AdjacencyView
@@ -346,13 +347,14 @@ class Graph : public object
         {
             return "";
         }
-        return boost::any_cast<const char*>(this->graph["name"]);
+        return boost::any_cast<const std::string&>(this->graph["name"])
+            .c_str();
     }
 
     // @name.setter
     auto set_name(boost::string_view s)
     {
-        this->graph["name"] = boost::any(s);
+        this->graph["name"] = boost::any(s.to_string());
     }
 
     /*! Iterate over the nodes. Use: "for (auto&& n : G)".
-- 
2.43.0


From 12ced4b0d969b5b4a57e87f7ad1c2f68391f0a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:48 +0000
Subject: [PATCH 15/15] fix: Fraction compared with a floating-point number
 must not truncate it (bsearch tolerance)

---
 lib/include/py2cpp/fractions.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/include/py2cpp/fractions.hpp b/lib/include/py2cpp/fractions.hpp
index c3686e5..f4f13ea 100644
--- a/lib/include/py2cpp/fractions.hpp
+++ b/lib/include/py2cpp/fractions.hpp
@@ -437,6 +437,19 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
         return this->_numerator < (this->_denominator * rhs);
     }
 
+    /**
+     * @brief Compare with a floating-point number, which must not be
+     * truncated to an integer (e.g. the error tolerance of bsearch())
+     *
+     */
+    template <typename F>
+    constexpr auto operator<(const F& rhs) const ->
+        typename std::enable_if<std::is_floating_point<F>::value, bool>::type
+    {
+        return static_cast<F>(this->_numerator) <
+            static_cast<F>(this->_denominator) * rhs;
+    }
+
     /**
      * @brief
      *
-- 
2.43.0

