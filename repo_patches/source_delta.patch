From 0071b710ae3ade061540da91a4b4569d8ce29c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 01/66] fix: order tensor indices strictly, comparing from the
 last component

---
 cpp/qugar/tensor_index_tp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/tensor_index_tp.cpp b/cpp/qugar/tensor_index_tp.cpp
index d2c7a22..a14a25c 100644
--- a/cpp/qugar/tensor_index_tp.cpp
+++ b/cpp/qugar/tensor_index_tp.cpp
@@ -119,8 +119,8 @@ template<int dim> bool TensorIndexTP<dim>::operator<(const TensorIndexTP<dim> &r
     return false;
   } else {
     for (int dir = dim - 1; dir > 0; --dir) {
-      if (rhs(dir) < this->operator()(dir)) {
-        return false;
+      if (this->operator()(dir) != rhs(dir)) {
+        return this->operator()(dir) < rhs(dir);
       }
     }
     return this->operator()(0) < rhs(0);
-- 
2.43.0


From c0a1e460126b5bd9412dff1c6bd6367fa6f516fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 02/66] fix: compute the total size of a tensor index in 64
 bits

---
 cpp/include/qugar/tensor_index_tp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/include/qugar/tensor_index_tp.hpp b/cpp/include/qugar/tensor_index_tp.hpp
index b068361..56c2792 100644
--- a/cpp/include/qugar/tensor_index_tp.hpp
+++ b/cpp/include/qugar/tensor_index_tp.hpp
@@ -137,7 +137,10 @@ public:
     requires(aux_dim == dim && dim > 0)
   TensorIndexTP(std::int64_t flat_index, const TensorIndexTP<dim> &size)
   {
-    auto total_size = static_cast<std::int64_t>(prod(size.as_Vector()));
+    std::int64_t total_size{ 1 };
+    for (int dir = 0; dir < dim; ++dir) {
+      total_size *= static_cast<std::int64_t>(size(dir));
+    }
 
     // NOLINTNEXTLINE (readability-simplify-boolean-expr)
     assert(0 <= flat_index && flat_index < total_size);
-- 
2.43.0


From 52ce630e28166cf79431100388607dd958365d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 03/66] fix: make an empty tensor index range iterate over
 nothing

---
 cpp/qugar/tensor_index_tp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/qugar/tensor_index_tp.cpp b/cpp/qugar/tensor_index_tp.cpp
index a14a25c..ac16cc8 100644
--- a/cpp/qugar/tensor_index_tp.cpp
+++ b/cpp/qugar/tensor_index_tp.cpp
@@ -209,6 +209,9 @@ template<int dim> std::size_t TensorIndexRangeTP<dim>::size() const
 
 template<int dim> auto TensorIndexRangeTP<dim>::cbegin() const -> Iterator
 {
+  if (this->size() == 0) {
+    return this->cend();
+  }
   return Iterator(this->lower_bound_, this->lower_bound_, this->upper_bound_);
 }
 
-- 
2.43.0


From b25181f50cbd5e7e261b37e8946046c21cf47df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 04/66] fix: return the lowest neighbor cell for points between
 grid cells

---
 cpp/qugar/cart_grid_tp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/cart_grid_tp.cpp b/cpp/qugar/cart_grid_tp.cpp
index 1525a2b..c868b8c 100644
--- a/cpp/qugar/cart_grid_tp.cpp
+++ b/cpp/qugar/cart_grid_tp.cpp
@@ -146,8 +146,8 @@ template<int dim> std::int64_t CartGridTP<dim>::get_cell_id(const PointType &poi
 
     auto dist = static_cast<int>(std::distance(begin, it));
     if (tolerance.equal(coord, *it)) {
-      if (dist == n_spans) {
-        // Point at last knot.
+      if (0 < dist) {
+        // Point at a knot: the lowest of the neighbor cells.
         --dist;
       }
     }
-- 
2.43.0


From 6920fca89f32a213933c013d16f7f48431c80a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 05/66] fix: keep boundary cell ids in 64 bits

---
 cpp/qugar/cart_grid_tp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/cart_grid_tp.cpp b/cpp/qugar/cart_grid_tp.cpp
index c868b8c..7bd4b37 100644
--- a/cpp/qugar/cart_grid_tp.cpp
+++ b/cpp/qugar/cart_grid_tp.cpp
@@ -218,7 +218,7 @@ template<int dim> std::vector<std::int64_t> CartGridTP<dim>::get_boundary_cells(
   cells.reserve(static_cast<std::size_t>(prod(n_cells_facet)));
 
   for (const auto cell_tid : TensorIndexRangeTP<dim>(tid_0, tid_1)) {
-    cells.push_back(static_cast<int>(cell_tid.flat(n_cells_dir)));
+    cells.push_back(cell_tid.flat(n_cells_dir));
   }
 
   return cells;
-- 
2.43.0


From 2d74e5b3029dcf0542f2293d039ec89c7be31f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 06/66] fix: make the y axis of the reference system orthogonal
 to its x axis

---
 cpp/qugar/affine_transf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/affine_transf.cpp b/cpp/qugar/affine_transf.cpp
index 727d533..d3feb33 100644
--- a/cpp/qugar/affine_transf.cpp
+++ b/cpp/qugar/affine_transf.cpp
@@ -143,7 +143,7 @@ std::pair<Vector<real, 3>, Vector<real, 3>> create_reference_system_around_axis(
 
     axis_x = cross_product(guess_axis_y, axis_z);
     axis_x /= norm(axis_x);
-    axis_y = cross_product(axis_z, axis_y);
+    axis_y = cross_product(axis_z, axis_x);
   }
 
   return std::make_pair(axis_x, axis_y);
-- 
2.43.0


From b94d57e0b0245488c5173557a749ca5b9aa4ba03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 07/66] fix: gradient and Hessian of the annulus function

---
 cpp/qugar/primitive_funcs_lib.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/primitive_funcs_lib.cpp b/cpp/qugar/primitive_funcs_lib.cpp
index 8a36c3a..71af286 100644
--- a/cpp/qugar/primitive_funcs_lib.cpp
+++ b/cpp/qugar/primitive_funcs_lib.cpp
@@ -494,13 +494,15 @@ template<typename T> Vector<T, 2> Annulus::grad_(const Point<2, T> &point) const
   const Point<2, T> diff = point - this->center_;
   const auto Ri2 = this->inner_radius_ * this->inner_radius_;
   const auto Ro2 = this->outer_radius_ * this->outer_radius_;
-  return (numbers::four * sqrnorm(diff) - Ri2 - Ro2) * diff;
+  return (numbers::four * sqrnorm(diff) - numbers::two * (Ri2 + Ro2)) * diff;
 }
 
 template<typename T> auto Annulus::hessian_(const Point<2, T> &point) const -> Hessian<T>
 {
   const Point<2, T> diff = point - this->center_;
-  const auto aux = numbers::four * sqrnorm(diff);
+  const auto Ri2 = this->inner_radius_ * this->inner_radius_;
+  const auto Ro2 = this->outer_radius_ * this->outer_radius_;
+  const T aux = numbers::four * sqrnorm(diff) - numbers::two * (Ri2 + Ro2);
   return Hessian<T>{ aux + (numbers::eight * diff(0) * diff(0)),
     numbers::eight * diff(0) * diff(1),
     aux + (numbers::eight * diff(1) * diff(1)) };
-- 
2.43.0


From e37c81814a9c80500608083ea0c36c365b8a3780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 08/66] fix: Hessian of the cylinder function

---
 cpp/qugar/primitive_funcs_lib.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cpp/qugar/primitive_funcs_lib.cpp b/cpp/qugar/primitive_funcs_lib.cpp
index 71af286..9b51f48 100644
--- a/cpp/qugar/primitive_funcs_lib.cpp
+++ b/cpp/qugar/primitive_funcs_lib.cpp
@@ -226,7 +226,6 @@ template<typename T> Vector<T, 3> Cylinder::grad_(const Point<3, T> &point) cons
 
 template<typename T> auto Cylinder::hessian_(const Point<3, T> & /*point*/) const -> Hessian<T>
 {
-  return Hessian<T>{ numbers::two, numbers::zero, numbers::zero, numbers::two, numbers::zero, numbers::two };
   Hessian<T> hess;
   for (int i = 0, ij = 0; i < 3; ++i) {
     for (int j = i; j < 3; ++j, ++ij) {
-- 
2.43.0


From 45cb6fd4238273b215c14a40358c854de37220a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 09/66] fix: mixed yz derivative of the 3D dim-linear function

---
 cpp/qugar/impl_funcs_lib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_funcs_lib.cpp b/cpp/qugar/impl_funcs_lib.cpp
index 75162c4..56d0f75 100644
--- a/cpp/qugar/impl_funcs_lib.cpp
+++ b/cpp/qugar/impl_funcs_lib.cpp
@@ -170,7 +170,7 @@ template<int dim> template<typename T> auto DimLinear<dim>::hessian_(const Point
       (cfs[0] + cfs[3] - cfs[1] - cfs[2]) * (one - point(2)) + (cfs[4] + cfs[7] - cfs[5] - cfs[6]) * point(2),
       (cfs[0] + cfs[5] - cfs[1] - cfs[4]) * (one - point(1)) + (cfs[2] + cfs[7] - cfs[3] - cfs[6]) * point(1),
       zero,
-      ((cfs[0] + cfs[7] - cfs[2] - cfs[5]) * (one - point(0)) + (cfs[1] + cfs[6] - cfs[3] - cfs[4]) * point(0)),
+      ((cfs[0] + cfs[6] - cfs[2] - cfs[4]) * (one - point(0)) + (cfs[1] + cfs[7] - cfs[3] - cfs[5]) * point(0)),
       zero };
   }
   // NOLINTEND (cppcoreguidelines-avoid-magic-numbers)
-- 
2.43.0


From 20ea8f8e66c57dbf85b46671d0f433bbb74c619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 10/66] fix: mixed xz derivative of the Schoen gyroid

---
 cpp/qugar/tpms_lib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/tpms_lib.cpp b/cpp/qugar/tpms_lib.cpp
index b96d270..f6562d7 100644
--- a/cpp/qugar/tpms_lib.cpp
+++ b/cpp/qugar/tpms_lib.cpp
@@ -123,7 +123,7 @@ template<int dim> template<typename T> auto Schoen<dim>::hessian_(const Point<3,
              * (-sin(pi_2mnq_point(1)) * cos(pi_2mnq_point(2)) - sin(pi_2mnq_point(0)) * cos(pi_2mnq_point(1)));
 
   if constexpr (dim == 3) {
-    hess(2) = pi_2mnq(0) * pi_2mnq(2) * (-cos(pi_2mnq_point(2)) * sin(pi_2mnq_point(2)));
+    hess(2) = pi_2mnq(0) * pi_2mnq(2) * (-sin(pi_2mnq_point(0)) * cos(pi_2mnq_point(2)));
     hess(4) = pi_2mnq(1) * pi_2mnq(2) * (-cos(pi_2mnq_point(1)) * sin(pi_2mnq_point(2)));
     // NOLINTNEXTLINE (cppcoreguidelines-avoid-magic-numbers)
     hess(5) = pi_2mnq(2) * pi_2mnq(2)
-- 
2.43.0


From 3a7765567ba85173ef04abef41f0693c17cb6556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 11/66] fix: y derivative of the Schoen IWP function

---
 cpp/qugar/tpms_lib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/tpms_lib.cpp b/cpp/qugar/tpms_lib.cpp
index f6562d7..3558774 100644
--- a/cpp/qugar/tpms_lib.cpp
+++ b/cpp/qugar/tpms_lib.cpp
@@ -159,7 +159,7 @@ template<int dim> template<typename T> auto SchoenIWP<dim>::grad_(const Point<3,
   grad_val(0) =
     (sin(pi_4_m_point(0)) - sin(pi_2_m_point(0)) * (cos(pi_2_m_point(1)) + cos(pi_2_m_point(2)))) * pi_4_m(0);
   grad_val(1) =
-    (sin(pi_4_m_point(1)) - sin(pi_2_m_point(1)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(2)))) * pi_4_m(0);
+    (sin(pi_4_m_point(1)) - sin(pi_2_m_point(1)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(2)))) * pi_4_m(1);
   if constexpr (dim == 3) {
     grad_val(2) =
       (sin(pi_4_m_point(2)) - sin(pi_2_m_point(2)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(1)))) * pi_4_m(2);
-- 
2.43.0


From dbfb0d8c81f103a22a209b704b022d9709e82dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 12/66] fix: gradient of monomials with degree zero in some
 direction

---
 cpp/qugar/monomials_tp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/qugar/monomials_tp.cpp b/cpp/qugar/monomials_tp.cpp
index d2daa82..52f84e0 100644
--- a/cpp/qugar/monomials_tp.cpp
+++ b/cpp/qugar/monomials_tp.cpp
@@ -286,7 +286,9 @@ auto MonomialsTP<dim, range>::horner_der(const Point<dim, T> &point,
     val = val * x + at(beta, i);
     der = der * x + static_cast<real>(i) * at(beta, i)(0);
   }
-  val = val * x + beta.front();
+  if (last_degree > 0) {
+    val = val * x + beta.front();
+  }
 
   return add_component(val, dim, der);
 }
-- 
2.43.0


From b114a6f9aac9275c50ae7f7f197697c75bbd12f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 13/66] fix: facets of monomials on side 1

---
 cpp/qugar/monomials_tp.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cpp/qugar/monomials_tp.cpp b/cpp/qugar/monomials_tp.cpp
index 52f84e0..f9436fa 100644
--- a/cpp/qugar/monomials_tp.cpp
+++ b/cpp/qugar/monomials_tp.cpp
@@ -206,20 +206,18 @@ std::shared_ptr<MonomialsTP<dim - 1, range>> MonomialsTP<dim, range>::extract_fa
 
   const auto new_order = TensorSizeTP<dim - 1>(remove_component(this->get_order().as_Vector(), const_dir));
 
-  std::vector<CoefsType> new_coefs(static_cast<std::size_t>(new_order.size()));
+  std::vector<CoefsType> new_coefs(static_cast<std::size_t>(new_order.size()), CoefsType{ qugar::numbers::zero });
 
-  TensorIndexTP<dim> lower_bound(0);
+  // On side 0 only the constant terms remain, on side 1 all the powers along const_dir add up.
+  const TensorIndexTP<dim> lower_bound(0);
   TensorIndexTP<dim> upper_bound(this->get_order());
   if (side == 0) {
     upper_bound(const_dir) = 1;
-  } else {
-    lower_bound(const_dir) = this->get_order(const_dir) - 1;
   }
-  const TensorIndexRangeTP<dim> indices_range(lower_bound, upper_bound);
 
-  auto new_coef = new_coefs.begin();
-  for (const auto &tid : indices_range) {
-    *new_coef++ = at(this->coefs_, tid.flat(this->get_order()));
+  for (const auto &tid : TensorIndexRangeTP<dim>(lower_bound, upper_bound)) {
+    const TensorIndexTP<dim - 1> new_tid{ remove_component(tid.as_Vector(), const_dir) };
+    at(new_coefs, new_tid.flat(new_order)) += at(this->coefs_, tid.flat(this->get_order()));
   }
 
   return std::make_shared<MonomialsTP<dim - 1, range>>(new_order, new_coefs);
-- 
2.43.0


From bb1541777af7c7bce9e7e68be6c04765fe91733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 14/66] fix: use the requested nodes in the Lagrange basis

---
 cpp/qugar/impl_reparam_mesh.cpp | 4 ++--
 cpp/qugar/lagrange_tp_utils.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/qugar/impl_reparam_mesh.cpp b/cpp/qugar/impl_reparam_mesh.cpp
index 1203804..16cbf38 100644
--- a/cpp/qugar/impl_reparam_mesh.cpp
+++ b/cpp/qugar/impl_reparam_mesh.cpp
@@ -185,7 +185,7 @@ void ImplReparamMesh<dim, range>::orient_cells_positively(const std::vector<int>
   const TensorSizeTP<dim> order(this->order_);
   Vector<std::vector<real>, dim> derivatives;
 
-  constexpr bool chebyshev = false;
+  const bool chebyshev = this->use_Chebyshev();
 
   const Point<dim> mid_pt{ numbers::half };
   evaluate_Lagrange_derivative<dim>(mid_pt, order, chebyshev, derivatives);
@@ -233,7 +233,7 @@ void ImplReparamMesh<dim, range>::orient_levelset_cells_positively(const std::ve
   std::vector<real> basis;
   Vector<std::vector<real>, dim> derivatives;
 
-  constexpr bool chebyshev = false;
+  const bool chebyshev = this->use_Chebyshev();
 
   const Point<dim> mid_pt{ numbers::half };
 
diff --git a/cpp/qugar/lagrange_tp_utils.cpp b/cpp/qugar/lagrange_tp_utils.cpp
index bcc4a9a..adcc51d 100644
--- a/cpp/qugar/lagrange_tp_utils.cpp
+++ b/cpp/qugar/lagrange_tp_utils.cpp
@@ -45,9 +45,9 @@ void evaluate_Lagrange_basis_1D(const real point, const int order, const bool ch
 
   std::function<real(const int)> get_coord;
   if (chebyshev) {
-    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
-  } else {
     get_coord = [order](const int ind) -> real { return ::algoim::bernstein::modifiedChebyshevNode(ind, order); };
+  } else {
+    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
   }
 
   for (int i = 0; i < order; ++i) {
@@ -71,9 +71,9 @@ void evaluate_Lagrange_basis_der_1D(const real point, const int order, const boo
 
   std::function<real(const int)> get_coord;
   if (chebyshev) {
-    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
-  } else {
     get_coord = [order](const int ind) -> real { return ::algoim::bernstein::modifiedChebyshevNode(ind, order); };
+  } else {
+    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
   }
 
   for (int i = 0; i < order; ++i) {
-- 
2.43.0


From 8c01e0635c0c4fa7c1c7e9e0d29536b7ebbea7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 15/66] fix: 3D tensor product quadratures add the domain
 origin to the points, not to the weights

---
 cpp/qugar/quadrature.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/qugar/quadrature.cpp b/cpp/qugar/quadrature.cpp
index cc06ecd..9b70727 100644
--- a/cpp/qugar/quadrature.cpp
+++ b/cpp/qugar/quadrature.cpp
@@ -258,14 +258,14 @@ std::shared_ptr<Quadrature<dim>> Quadrature<dim>::create_tp_quadrature(const std
     const real min_2 = domain.min(2);
 
     for (int k = 0; k < n_2; ++k) {
-      const auto p_k = QuadType::get_abscissa(n_2, k) * len_2;
-      const auto w_k = min_2 + (QuadType::get_weight(n_2, k) * len_2);
+      const auto p_k = min_2 + (QuadType::get_abscissa(n_2, k) * len_2);
+      const auto w_k = QuadType::get_weight(n_2, k) * len_2;
       for (int j = 0; j < n_1; ++j) {
-        const auto p_j = QuadType::get_abscissa(n_1, j) * len_1;
-        const auto w_j = min_1 + (QuadType::get_weight(n_1, j) * len_1);
+        const auto p_j = min_1 + (QuadType::get_abscissa(n_1, j) * len_1);
+        const auto w_j = QuadType::get_weight(n_1, j) * len_1;
         for (int i = 0; i < n_0; ++i) {
-          const auto p_i = QuadType::get_abscissa(n_0, i) * len_0;
-          const auto w_i = min_0 + (QuadType::get_weight(n_0, i) * len_0);
+          const auto p_i = min_0 + (QuadType::get_abscissa(n_0, i) * len_0);
+          const auto w_i = QuadType::get_weight(n_0, i) * len_0;
           *it_p++ = Point<3>(p_i, p_j, p_k);
           *it_w++ = w_i * w_j * w_k;
         }
-- 
2.43.0


From ab23b7e1901464b6e2c58c8b03ef59952792c451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 16/66] fix: the status of a leaf could not be queried with
 assertions enabled

---
 cpp/qugar/unfitted_domain_binary_part.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/unfitted_domain_binary_part.cpp b/cpp/qugar/unfitted_domain_binary_part.cpp
index 80813cc..3b9b923 100644
--- a/cpp/qugar/unfitted_domain_binary_part.cpp
+++ b/cpp/qugar/unfitted_domain_binary_part.cpp
@@ -62,7 +62,7 @@ template<int dim> void UnfittedBinarySpacePart<dim>::set_status(const ImmersedCe
 
 template<int dim> ImmersedCellStatus UnfittedBinarySpacePart<dim>::get_status() const
 {
-  assert(this->get_child(0) != nullptr && this->get_child(1) != nullptr);
+  assert(this->is_leaf());
   return this->status_;
 }
 
-- 
2.43.0


From 2cfe8eff80f396a70895e175222c5d8eebb57a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 17/66] fix: cells out of the unit domain were classified by
 the sign of the Bezier in the unit domain

---
 cpp/qugar/impl_unfitted_domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index e578dc8..7f09081 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -194,7 +194,7 @@ namespace {
     BezierTP<dim> bzr_domain(bezier);
     bzr_domain.rescale_domain(domain);
 
-    switch (bezier.sign()) {
+    switch (bzr_domain.sign()) {
     case FuncSign::positive:
       return ImmersedCellStatusTmp::empty;
     case FuncSign::negative:
-- 
2.43.0


From fb00b282ca09ff1ac011a9cc2de79a6dab33b064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:31 +0000
Subject: [PATCH 18/66] fix: unfitted domains restricted to some cells aborted
 or classified other cells

---
 cpp/qugar/impl_unfitted_domain.cpp | 55 +++++++++++++++---------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index 7f09081..3f1f09f 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -108,31 +108,33 @@ namespace {
     }
   }
 
-  //! Inserts cell IDs from a subgrid into a container.
+  //! @brief Checks if all the cells of the subgrid are target cells.
   //!
-  //! @param subgrid The subgrid from which to extract cell IDs.
-  //! @param target_cells Optional vector of target cell IDs. If provided, only these cells
-  //!                     within the subgrid's range will be inserted into the container.
-  //! @param container The container to store the cell IDs.
+  //! If `target_cells` is not provided, this function returns `true` (it assumes that
+  //! all the cells are considered.)
   //!
-  //! If `target_cells` is provided, this function inserts the cell IDs from `target_cells`
-  //! that are within the range of `subgrid` into `container`. If `target_cells` is not provided,
-  //! all cell IDs from the `subgrid` are inserted into `container`.
+  //! @tparam dim The dimensionality of the grid.
+  //! @param subgrid The subgrid whose cells are checked.
+  //! @param target_cells An optional vector of target cell indices.
+  //! @return `true` if all the subgrid's cells are target cells, or no target cells are defined;
+  //! `false` otherwise.
   template<int dim>
-  void insert_cells(UnfittedBinarySpacePart<dim> &tree,
-    const std::optional<std::vector<std::int64_t>> &target_cells,
-    const FuncSign sign)
+  bool is_contained(const SubCartGridTP<dim> &subgrid, const std::optional<std::vector<std::int64_t>> &target_cells)
   {
-    // TODO: Implement this function for target cells.
-    static_cast<void>(target_cells);
-    assert(!target_cells.has_value());
-
-    const auto status = sign == FuncSign::positive ? ImmersedCellStatus::empty : ImmersedCellStatus::full;
+    if (!target_cells.has_value()) {
+      return true;
+    }
 
-    tree.set_status(status);
+    const auto &cells = target_cells.value();
+    const auto &size = subgrid.get_grid()->get_num_cells_dir();
+    for (const auto tid : subgrid.get_range()) {
+      if (std::find(cells.cbegin(), cells.cend(), static_cast<std::int64_t>(tid.flat(size))) == cells.cend()) {
+        return false;
+      }
+    }
+    return true;
   }
 
-
   template<int dim>
   std::function<FuncSign(const BoundBox<dim> &)> create_compute_sign_function(const ImplicitFunc<dim> &phi)
   {
@@ -454,17 +456,16 @@ void UnfittedImplDomain<dim>::create_decomposition(KDTree &tree,
   const auto ext_domain = domain.extend(numbers::eps * 1000);
   const auto sign = func_sign(ext_domain);
 
-  if (sign == FuncSign::undetermined) {
-    if (subgrid->is_unique_cell()) {
-      this->classify_undetermined_sign_cell(tree);
-    } else {
-      tree.branch();
-      this->create_decomposition(*tree.get_child(0), func_sign, target_cells);
-      this->create_decomposition(*tree.get_child(1), func_sign, target_cells);
-    }
+  if (subgrid->is_unique_cell() && sign == FuncSign::undetermined) {
+    this->classify_undetermined_sign_cell(tree);
+  } else if (sign == FuncSign::undetermined || !is_contained(*subgrid, target_cells)) {
+    // Only target cells get a status.
+    tree.branch();
+    this->create_decomposition(*tree.get_child(0), func_sign, target_cells);
+    this->create_decomposition(*tree.get_child(1), func_sign, target_cells);
   } else {
     assert(sign == FuncSign::positive || sign == FuncSign::negative);
-    insert_cells(tree, target_cells, sign);
+    tree.set_status(sign == FuncSign::positive ? ImmersedCellStatus::empty : ImmersedCellStatus::full);
   }
 }
 
-- 
2.43.0


From cc8824c0685286e5a94f32a1cd8206f75a107306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 19/66] fix: internal indices of 2D and 3D tensor-product grids

---
 python/qugar/mesh/tp_index.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/tp_index.py b/python/qugar/mesh/tp_index.py
index 4f11249..1123f68 100644
--- a/python/qugar/mesh/tp_index.py
+++ b/python/qugar/mesh/tp_index.py
@@ -95,17 +95,19 @@ class TensorProdIndex:
             return np.arange(1, n_inds[0] - 1, dtype=np.int64)
         elif dim == 2:
             internals_1D = TensorProdIndex.get_all_internal(n_inds[:-1])
-            return internals_1D + np.arange(
+            internals_2D = internals_1D + np.arange(
                 n_inds[0], n_inds[0] * (n_inds[1] - 1), n_inds[0], dtype=np.int64
             ).reshape(n_inds[1] - 2, 1)
+            return internals_2D.ravel()
         else:  # if dim == 3:
             internals_2D = TensorProdIndex.get_all_internal(n_inds[:-1])
-            return internals_2D + np.arange(
+            internals_3D = internals_2D + np.arange(
                 n_inds[0] * n_inds[1],
                 n_inds[0] * n_inds[1] * (n_inds[2] - 1),
                 n_inds[0] * n_inds[1],
                 dtype=np.int64,
             ).reshape(n_inds[2] - 2, 1)
+            return internals_3D.ravel()
 
     @staticmethod
     def get_all_faces(n_inds: npt.NDArray[np.int32]) -> npt.NDArray[np.int64]:
-- 
2.43.0


From a670d0d60fc987e1aa8afcfb923bf18e099dc055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:29 +0000
Subject: [PATCH 20/66] fix: DOLFINx numbering of the edges of hexahedra along
 z

---
 python/qugar/mesh/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/utils.py b/python/qugar/mesh/utils.py
index 4a09515..2364ccf 100644
--- a/python/qugar/mesh/utils.py
+++ b/python/qugar/mesh/utils.py
@@ -645,7 +645,7 @@ def lexicg_to_DOLFINx_edges(dim: int) -> npt.NDArray[np.int32]:
     if dim < 3:
         return lexicg_to_DOLFINx_faces(dim)
     else:  # if dim == 3:
-        return np.array([8, 4, 0, 5, 2, 9, 1, 3, 10, 6, 7, 11], dtype=np.int32)
+        return np.array([8, 4, 0, 5, 1, 9, 2, 3, 10, 6, 7, 11], dtype=np.int32)
 
 
 @staticmethod
@@ -668,7 +668,7 @@ def DOLFINx_to_lexicg_edges(dim: int) -> npt.NDArray[np.int32]:
     if dim < 3:
         return DOLFINx_to_lexicg_faces(dim)
     else:  # if dim == 3:
-        return np.array([2, 6, 4, 7, 1, 3, 9, 10, 0, 5, 8, 11], dtype=np.int32)
+        return np.array([2, 4, 6, 7, 1, 3, 9, 10, 0, 5, 8, 11], dtype=np.int32)
 
 
 import qugar.utils
-- 
2.43.0


From 28c16f3bb5df44e20c7086b5a79d7436f2e70978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 21/66] fix: coordinates of the nodes of 1D Cartesian meshes

---
 python/qugar/mesh/tp_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index e44f7ff..1dc53e4 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -151,7 +151,7 @@ def _create_Cartesian_mesh_nodes_from_points(
     assert 1 <= dim <= 3, "Invalid dimension"
 
     if dim == 1:
-        x = pts_1D[0].copy()
+        x = [pts_1D[0]]
     elif dim == 2:
         x = np.meshgrid(pts_1D[0], pts_1D[1], indexing="xy")
     else:  # dim == 3
-- 
2.43.0


From 9e55652d5008ed209e8521cbb96523803f8b19a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 22/66] fix: tensor index of a single cell raised an exception

---
 python/qugar/mesh/tp_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 1dc53e4..2a6258f 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -448,7 +448,7 @@ class TensorProductMesh(Mesh):
             npt.NDArray[np.int32]: Cell tensor index
         """
 
-        lex_cell_id = self.get_original_cell_ids(np.array(dlf_local_cell_id, dtype=np.int32))[0]
+        lex_cell_id = self.get_original_cell_ids(np.array([dlf_local_cell_id], dtype=np.int32))[0]
         return TensorProdIndex.get_tensor_index(self.num_cells_dir, lex_cell_id)
 
 
-- 
2.43.0


From fa152c93f9d40c3fa1eacbd2c4af0ce908cfdadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 23/66] fix: facets of a face were taken with the lexicographic
 face id as the DOLFINx one

---
 python/qugar/mesh/tp_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 2a6258f..6765c12 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -30,6 +30,7 @@ import qugar.cpp
 from qugar.mesh.mesh import Mesh
 from qugar.mesh.tp_index import TensorProdIndex
 from qugar.mesh.utils import (
+    DOLFINx_to_lexicg_faces,
     DOLFINx_to_lexicg_nodes,
 )
 
@@ -435,7 +436,8 @@ class TensorProductMesh(Mesh):
         cell_to_facets = cell_to_facets.array.reshape(cell_to_facets.num_nodes, -1)
 
         dlf_local_cells = self.get_face_DOLFINx_cells(face_id)
-        return np.sort(np.unique(cell_to_facets[dlf_local_cells, face_id]))
+        dlf_face_id = DOLFINx_to_lexicg_faces(tdim)[face_id]
+        return np.sort(np.unique(cell_to_facets[dlf_local_cells, dlf_face_id]))
 
     def get_cell_tensor_index(self, dlf_local_cell_id: np.int32) -> npt.NDArray[np.int32]:
         """Computes the tensor index referred to the tensor-product mesh
-- 
2.43.0


From 8cd8b966c8d378d066597c3df9166b66a5c8e779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 24/66] fix: ghost mode and type of Cartesian meshes were
 passed as other arguments

---
 python/qugar/mesh/tp_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 6765c12..52e2484 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -608,4 +608,6 @@ def create_Cartesian_mesh(
 
     cpp_grid = qugar.cpp.create_cart_grid(cell_breaks)
 
-    return CartesianMesh(comm, cpp_grid, degree, ghost_mode, xmin_.dtype.type)
+    return CartesianMesh(
+        comm, cpp_grid, degree, ghost_mode=ghost_mode, dtype=xmin_.dtype.type
+    )
-- 
2.43.0


From de5e7e9e6d8c5fa7b695f358118b941cbe619218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:14 +0000
Subject: [PATCH 25/66] fix: facets of meshes in parallel used global numbers
 as local ids

---
 python/qugar/mesh/mesh_facets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/mesh_facets.py b/python/qugar/mesh/mesh_facets.py
index 44663a1..8bd3030 100644
--- a/python/qugar/mesh/mesh_facets.py
+++ b/python/qugar/mesh/mesh_facets.py
@@ -478,7 +478,7 @@ if qugar.utils.has_FEniCSx:
         ext_facets = dolfinx.mesh.exterior_facet_indices(topology)
 
         imap = topology.index_map(topology.dim - 1)
-        all_facets = np.arange(imap.local_range[0], imap.local_range[1], dtype=np.int32)
+        all_facets = np.arange(imap.size_local, dtype=np.int32)
 
         int_facets = np.setdiff1d(all_facets, ext_facets, assume_unique=True)
 
@@ -505,6 +505,6 @@ if qugar.utils.has_FEniCSx:
         """
         topology = mesh.topology
         imap = topology.index_map(topology.dim - 1)
-        all_facets = np.arange(imap.local_range[0], imap.local_range[1], dtype=np.int32)
+        all_facets = np.arange(imap.size_local, dtype=np.int32)
 
         return create_facets_from_ids(mesh, all_facets, single_interior_facet)
-- 
2.43.0


From e223e799727228c6c3172e3c8452b19fa43cef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:14 +0000
Subject: [PATCH 26/66] fix: searching for ids in a subdomain without them
 raised an exception

---
 python/qugar/mesh/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index b3b43ac..43a7a78 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -124,6 +124,9 @@ def _find_in_array(values_to_search: npt.NDArray, all_values: npt.NDArray) -> np
         it returns -1.
     """
 
+    if all_values.size == 0:
+        return np.full(values_to_search.shape, -1, dtype=np.int64)
+
     index = np.argsort(all_values)
     sorted_all_values = all_values[index]
 
-- 
2.43.0


From d3882ac4a11bf48d696dfa4a0dfebe770b506262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 27/66] fix: empty facets for interior integrals overwrote the
 cut ones

---
 python/qugar/mesh/unfitted_domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/unfitted_domain.py b/python/qugar/mesh/unfitted_domain.py
index 1dba4a0..dc09b6e 100644
--- a/python/qugar/mesh/unfitted_domain.py
+++ b/python/qugar/mesh/unfitted_domain.py
@@ -456,10 +456,10 @@ class UnfittedDomain(UnfittedDomainABC):
                 )
 
                 if not unf_non_cut_facets.empty:
-                    self._interior_cut_facets = self._interior_empty_facets.concatenate(
+                    self._interior_empty_facets = self._interior_empty_facets.concatenate(
                         unf_non_cut_facets
                     )
-                    self._interior_cut_facets.unique()
+                    self._interior_empty_facets.unique()
 
         return self._interior_empty_facets
 
-- 
2.43.0


From c7baf74ceb00ce94fed14f81e1faacea73e122b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 28/66] fix: empty facets were given the tag of cut facets

---
 python/qugar/mesh/unfitted_domain_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/unfitted_domain_abc.py b/python/qugar/mesh/unfitted_domain_abc.py
index 2047342..bbe8b3e 100644
--- a/python/qugar/mesh/unfitted_domain_abc.py
+++ b/python/qugar/mesh/unfitted_domain_abc.py
@@ -495,6 +495,6 @@ class UnfittedDomainABC(ABC):
             add_facets(self.get_full_facets(ext_integral), full_tag)
 
         if empty_tag is not None:
-            add_facets(self.get_empty_facets(ext_integral), cut_tag)
+            add_facets(self.get_empty_facets(ext_integral), empty_tag)
 
         return list((tag, facets.as_array()) for tag, facets in facet_tags.items())
-- 
2.43.0


From 652e9e00a4b1aa08520dc8dfeea5f23dcac867f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:38 +0000
Subject: [PATCH 29/66] fix: products of 32-bit sizes overflowed in the
 tensor-product index sets

---
 python/qugar/mesh/tp_index.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/qugar/mesh/tp_index.py b/python/qugar/mesh/tp_index.py
index 1123f68..64340bd 100644
--- a/python/qugar/mesh/tp_index.py
+++ b/python/qugar/mesh/tp_index.py
@@ -57,6 +57,7 @@ class TensorProdIndex:
             the corners.
         """
 
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
@@ -88,6 +89,7 @@ class TensorProdIndex:
             indices.
         """
 
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
@@ -124,6 +126,7 @@ class TensorProdIndex:
             indices.
         """
 
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
@@ -231,6 +234,7 @@ class TensorProdIndex:
             npt.NDArray[np.int64]: Indices associated to the face.
         """
 
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3 and 0 <= face_id < 2 * dim
 
@@ -296,6 +300,7 @@ class TensorProdIndex:
             npt.NDArray[np.int64]: Indices associated to the edge.
         """
 
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
-- 
2.43.0


From e414b677cc1ffcd4e777e09cf2af91aa35004823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:49 +0000
Subject: [PATCH 30/66] fix: the permutations of quadrilateral facets lacked
 two rotations

---
 python/qugar/dolfinx/custom_quad_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/custom_quad_utils.py b/python/qugar/dolfinx/custom_quad_utils.py
index ead8b52..7fdf1a9 100644
--- a/python/qugar/dolfinx/custom_quad_utils.py
+++ b/python/qugar/dolfinx/custom_quad_utils.py
@@ -147,7 +147,7 @@ def _create_permutation_operators(
         RfRt2 = Rf @ Rt2
         perms = [np.eye(3), Rf, Rt, RfRt, Rt2, RfRt2]
 
-        if cell_type == "quadrilateral":
+        if cell_name == "quadrilateral":
             perms.extend([Rt2 @ Rt, RfRt2 @ Rt])
 
         return perms
-- 
2.43.0


From 842d66cddc0e69109be4b608ba8b19987d921ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:49 +0000
Subject: [PATCH 31/66] fix: empty interior facets were marked in the rows of
 other facets

---
 python/qugar/dolfinx/custom_coefficients.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/custom_coefficients.py b/python/qugar/dolfinx/custom_coefficients.py
index a88327d..2882a20 100644
--- a/python/qugar/dolfinx/custom_coefficients.py
+++ b/python/qugar/dolfinx/custom_coefficients.py
@@ -419,7 +419,10 @@ class _CustomCoeffsPackerIntegral:
         else:
             all_rel_offsets[self._custom_entity_ids] = rel_offsets
         # And finally for the empty entities we set the offset to 0.
-        all_rel_offsets[self._get_empty_entities_ids()] = 0
+        if interior_facet:
+            all_rel_offsets_[self._get_empty_entities_ids(), 0] = 0
+        else:
+            all_rel_offsets[self._get_empty_entities_ids()] = 0
 
         # Copy intp offsets into the trailing coeff cells via a byte view.
         # For coeffs whose cell is smaller-or-equal to intp (float32, float64,
-- 
2.43.0


From 864e44898edec4c70eeedacbeea9e7613609cdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:49 +0000
Subject: [PATCH 32/66] fix: coefficients of interior facets were not kept in
 the layout of DOLFINx

---
 python/qugar/dolfinx/codegeneration.py      |  4 ++-
 python/qugar/dolfinx/custom_coefficients.py | 39 ++++++++++++++++++---
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index b2b9de2..c60219a 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -141,7 +141,9 @@ class _IntegralModifier:
         else:
             coeff = list(self._ir.expression.coefficient_offsets.keys())[-1]
             element = coeff.ufl_function_space().element  # type: ignore
-            return offsets[-1] + element.space_dimension
+            # In interior facets the coefficients of both sides are stored.
+            width = 2 if self._data.integral_type == "interior_facet" else 1
+            return offsets[-1] + width * element.space_dimension
 
     def _check_FFCx_input(self) -> None:
         """Checks the validity of the integral to be modified.
diff --git a/python/qugar/dolfinx/custom_coefficients.py b/python/qugar/dolfinx/custom_coefficients.py
index 2882a20..928eec1 100644
--- a/python/qugar/dolfinx/custom_coefficients.py
+++ b/python/qugar/dolfinx/custom_coefficients.py
@@ -62,6 +62,30 @@ def _find_common_rows(A: npt.NDArray[np.int32], B: npt.NDArray[np.int32]) -> npt
     return np.where(mask)[0]
 
 
+def _copy_standard_coeffs(
+    coeffs: FloatingArray, standard_coeffs: FloatingArray, interior_facet: bool
+) -> None:
+    """
+    Copies the coefficients packed by DOLFINx into the custom ones.
+
+    For interior facets two rows are associated to every facet, and
+    DOLFINx stores the coefficients of both sides contiguously at the
+    beginning of that pair of rows. As the rows of the custom
+    coefficients are longer, the copy is performed pair by pair.
+
+    Args:
+        coeffs: Custom coefficients (modified in place).
+        standard_coeffs: Coefficients packed by DOLFINx.
+        interior_facet: Whether the integral is over interior facets.
+    """
+    n_rows, n_cols = standard_coeffs.shape
+    if interior_facet:
+        pairs = coeffs[:n_rows].reshape(n_rows // 2, 2 * coeffs.shape[1])
+        pairs[:, : 2 * n_cols] = standard_coeffs.reshape(n_rows // 2, 2 * n_cols)
+    else:
+        coeffs[:n_rows, :n_cols] = standard_coeffs
+
+
 class _CustomCoeffsPackerIntegral:
     """Class for computing coefficients for a single custom integral.
 
@@ -449,7 +473,13 @@ class _CustomCoeffsPackerIntegral:
             all_rel_offsets_view = padded.view(self._coeffs_dtype).reshape(
                 [-1, n_extra_cols]
             )
-        self._new_coeffs[:n_entities, -n_extra_cols:] = all_rel_offsets_view
+        if interior_facet:
+            # The offset is placed right after the coefficients of both sides.
+            n_old_cols = 2 * self._old_coeffs.shape[1]
+            pairs = self._new_coeffs[:n_entities].reshape(n_tot_entities, 2 * n_cols_complex)
+            pairs[:, n_old_cols : n_old_cols + n_extra_cols] = all_rel_offsets_view[::2]
+        else:
+            self._new_coeffs[:n_entities, -n_extra_cols:] = all_rel_offsets_view
 
     def _copy_vals(
         self,
@@ -801,8 +831,7 @@ class _CustomCoeffsPackerIntegral:
         self._allocate_new_coeffs()
 
         # Copying old coefficients to the new array.
-        old_shape = self._old_coeffs.shape
-        self._new_coeffs[: old_shape[0], : old_shape[1]] = self._old_coeffs
+        _copy_standard_coeffs(self._new_coeffs, self._old_coeffs, self._is_interior_facet())
 
         self._compute_offsets()
         self._copy_vals(self._compute_new_vals())
@@ -991,9 +1020,9 @@ class CustomCoeffsPacker:
 
         new_coeffs = {}
         for itg_info, _new_coeffs_dlf in new_coeffs_dlf.items():
-            shape = _new_coeffs_dlf.shape
             c = coeffs[itg_info]
-            c[: shape[0], : shape[1]] = _new_coeffs_dlf
+            interior_facet = itg_info[0] == IntegralType.interior_facet
+            _copy_standard_coeffs(c, _new_coeffs_dlf, interior_facet)
             new_coeffs[itg_info] = c
 
         return new_coeffs
-- 
2.43.0


From 92bd651d1438601d463f9fa849f2c86caeba1e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:49 +0000
Subject: [PATCH 33/66] fix: the tables of a quadrature were lost when
 tabulating those of the next one

---
 python/qugar/dolfinx/codegeneration.py | 47 +++++++++++++++++---------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index c60219a..aec0327 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -431,6 +431,14 @@ class _IntegralModifier:
         is_interior_facet = self._data.integral_type == "interior_facet"
 
         call_code = ""
+
+        # The shim provides a single scratch buffer per thread: a second
+        # request would invalidate (or return again) the buffer of the
+        # first one. Thus, it is requested only once for all the
+        # quadratures in the integral, after loading all of them.
+        scratch_terms: list[str] = []
+        quad_metas = []
+
         for quad_data, FE_tables in self._data.quad_data_FE_tables.items():
             quad_name = quad_data.name
 
@@ -481,10 +489,10 @@ class _IntegralModifier:
             # agree on both sides).
             #
             # All buffers (basix blocks + per-table repack buffers when
-            # vs > 1) live in a SINGLE thread-local scratch obtained from
-            # the shim. Using the stack via VLAs overflows the thread's
-            # stack for higher-degree 3D forms (e.g. P3 hex), so we offset
-            # into the scratch instead.
+            # vs > 1) of all the quadratures live in a SINGLE thread-local
+            # scratch obtained from the shim. Using the stack via VLAs
+            # overflows the thread's stack for higher-degree 3D forms
+            # (e.g. P3 hex), so we offset into the scratch instead.
             varying = [t for t in FE_tables if not t.is_constant_for_pts()]
 
             groups: dict[tuple, list[tuple[FETable, dict]]] = {}
@@ -495,7 +503,6 @@ class _IntegralModifier:
             # First pass: gather per-group metadata and the list of scratch
             # size terms.
             group_meta = []
-            scratch_terms: list[str] = []
             for gi, (params, items) in enumerate(groups.items()):
                 info0 = items[0][1]
                 gdim, ndofs, vs = info0["gdim"], info0["ndofs"], info0["vs"]
@@ -521,19 +528,27 @@ class _IntegralModifier:
                                 f"{n_pts_name} * {table.funcs}"
                             )
 
-            scratch_var = f"scratch_{quad_name}"
-            if scratch_terms:
-                total = " + ".join(scratch_terms)
-                call_code += (
-                    f"{dtype_str}* {scratch_var} = "
-                    f"qugar_get_scratch_{suffix}((long)({total}));\n\n"
-                )
+            quad_metas.append((quad_name, group_meta))
+
+        scratch_var = "scratch"
+        if scratch_terms:
+            total = " + ".join(scratch_terms)
+            call_code += (
+                f"{dtype_str}* {scratch_var} = "
+                f"qugar_get_scratch_{suffix}((long)({total}));\n\n"
+            )
 
-            # Running offset (sum of size expressions already consumed).
-            offsets: list[str] = []
+        # Running offset (sum of size expressions already consumed).
+        offsets: list[str] = []
 
-            def _cur_offset() -> str:
-                return " + ".join(offsets) if offsets else "0"
+        def _cur_offset() -> str:
+            return " + ".join(offsets) if offsets else "0"
+
+        for quad_name, group_meta in quad_metas:
+            points_name = f"points_{quad_name}"
+            points_side1_name = f"points_side1_{quad_name}"
+            points_facet_name = f"points_facet_{quad_name}"
+            n_pts_name = f"n_pts_Q{quad_name}"
 
             for gd in group_meta:
                 (gi, params, items, gdim, ndofs, vs, maxnd, nderiv,
-- 
2.43.0


From 8836d76ca812786da72b2be03dadfb19c5beced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:49 +0000
Subject: [PATCH 34/66] fix: tables of quadratures with a single point were
 accessed always at the first point

---
 python/qugar/dolfinx/_kernel_body.py   | 12 +++---
 python/qugar/dolfinx/codegeneration.py | 13 +++---
 python/qugar/dolfinx/fe_table.py       | 55 +++++++++++++++++++-------
 3 files changed, 52 insertions(+), 28 deletions(-)

diff --git a/python/qugar/dolfinx/_kernel_body.py b/python/qugar/dolfinx/_kernel_body.py
index 16f0d4b..3447c48 100644
--- a/python/qugar/dolfinx/_kernel_body.py
+++ b/python/qugar/dolfinx/_kernel_body.py
@@ -29,9 +29,9 @@ the variant kernels with a fluent chain such as::
 
     (body.copy()
          .erase_static_declarations()
-         .rewrite_table_accesses()
          .dynamic_loop_bounds()
          .inline_pre_loop_into_loops()
+         .rewrite_table_accesses()
          .substitute_normals(offsets)
          .render(suffix="_custom"))
 
@@ -374,9 +374,8 @@ class KernelBody:
 
         bracket = r"\[\s*(\w+\[\d+\]|[^\]]*)\s*\]\s*"
         fe_re = re.compile(r"FE([\w|\_]+)\s*" + bracket * 4)
-        has_perms = self.integral_type == "interior_facet"
 
-        def transform(text: str) -> str:
+        def transform(text: str, quad_name: str) -> str:
             out: list[str] = []
             pos = 0
             for m in fe_re.finditer(text):
@@ -388,7 +387,7 @@ class KernelBody:
                 else:
                     indices = tuple(m.group(i) for i in range(2, 6))
                     out.append(text[pos: m.start()])
-                    out.append(table.create_new_access_code(indices, has_perms))
+                    out.append(table.create_new_access_code(indices, quad_name))
                 pos = m.end()
             out.append(text[pos:])
             return "".join(out)
@@ -397,9 +396,10 @@ class KernelBody:
         # never contain FE accesses; post_text is just the function's
         # closing '}' so it doesn't either.
         if self.loops:
-            self.loops[0].pre_text = transform(self.loops[0].pre_text)
+            first = self.loops[0]
+            first.pre_text = transform(first.pre_text, first.quad_name)
         for loop in self.loops:
-            loop.body = transform(loop.body)
+            loop.body = transform(loop.body, loop.quad_name)
         return self
 
     def dynamic_loop_bounds(self) -> "KernelBody":
diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index aec0327..b0d4324 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -508,8 +508,7 @@ class _IntegralModifier:
                 gdim, ndofs, vs = info0["gdim"], info0["ndofs"], info0["vs"]
                 maxnd = max(info["maxnd"] for _t, info in items)
                 nderiv = math.comb(maxnd + gdim, gdim)
-                any_perm = is_interior_facet and any(
-                    t.permutations > 1 for t, _ in items)
+                any_perm = any(t.is_two_sided() for t, _ in items)
                 blk_size_expr = (
                     f"{nderiv} * {n_pts_name} * {ndofs} * {vs}"
                 )
@@ -523,7 +522,7 @@ class _IntegralModifier:
                 for table, info in items:
                     if info["vs"] > 1:
                         scratch_terms.append(f"{n_pts_name} * {table.funcs}")
-                        if is_interior_facet and table.permutations > 1:
+                        if table.is_two_sided():
                             scratch_terms.append(
                                 f"{n_pts_name} * {table.funcs}"
                             )
@@ -593,7 +592,7 @@ class _IntegralModifier:
                 for table, info in items:
                     funcs = table.funcs
                     didx, vaxis = info["didx"], info["vaxis"]
-                    two_sided = is_interior_facet and table.permutations > 1
+                    two_sided = table.is_two_sided()
 
                     if vs == 1:
                         # The basix block's layout already matches the
@@ -720,14 +719,14 @@ class _IntegralModifier:
 
         # Apply the custom-variant transformation pipeline on the
         # structured body. Order matters:
-        #   erase_static -> rewrite_table_accesses -> dynamic_loop_bounds
-        #   -> inline_pre_loop_into_loops -> substitute_normals.
+        #   erase_static -> dynamic_loop_bounds -> inline_pre_loop_into_loops
+        #   -> rewrite_table_accesses -> substitute_normals.
         body = (
             self._body.copy()
             .erase_static_declarations()
-            .rewrite_table_accesses()
             .dynamic_loop_bounds()
             .inline_pre_loop_into_loops()
+            .rewrite_table_accesses()
             .substitute_normals(self._get_constant_normal_offsets())
         )
 
diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index aeb2499..bff59c7 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -219,6 +219,22 @@ class FETable:
             "ones",
         ]
 
+    def is_two_sided(self) -> bool:
+        """Checks if the values of the table are different at both sides
+        of an interior facet.
+
+        This is the case of the tables with permutations. For
+        quadratures with a single point no table presents permutations,
+        and it is the facet index what distinguishes both sides.
+
+        Returns:
+            bool: Whether the table is different at both sides.
+        """
+        if self._integral_type != "interior_facet":
+            return False
+        n_quad_pts = self._quad_data.rule.points.shape[0]  # type: ignore
+        return self._permutations > 1 or (n_quad_pts == 1 and self._entities > 1)
+
     @property
     def FE_id(self) -> int:
         """Returns the id of the table."""
@@ -389,7 +405,7 @@ class FETable:
         if not hasattr(self, "_derivatives") or all(der == 0 for der in self._derivatives):
             self._derivatives = (0,) * elem_dim
 
-    def create_new_access_code(self, indices: tuple[str, ...], has_permutations: bool) -> str:
+    def create_new_access_code(self, indices: tuple[str, ...], quad_name: str) -> str:
         """Transforms the 4 indices access to the statically defined FE
         4D table to the access to a plain 1D array (for values
         dynamically loaded from a custom coefficients array passed to a
@@ -400,15 +416,19 @@ class FETable:
         the new ``FE_C0_D10_Q48f`` is the flattened dynamic version of
         the original array.
 
-        In the case the table presents permutations (for interior
-        facet integrals), the access will be something like
+        In the case the table is two-sided (for interior facet
+        integrals), the access will be something like
         ``FE_C0_D10_Q48f[i][index]``.
 
+        If the original quadrature has a single point, the table is
+        accessed with a constant point index that must be replaced by
+        the index of the custom points loop.
+
         Args:
             indices (tuple[str]): Four indices for accessing the
                 4-dimensional FE table.
-            has_permutations (bool): Flat indicating if permutations
-                must be considered (mostly, for interior facets).
+            quad_name (str): Name of the quadrature of the loop in which
+                the table is accessed.
 
         Returns:
             str: Generated C code for accessing the dynamic array.
@@ -416,12 +436,17 @@ class FETable:
 
         assert not self.is_constant_for_pts()
 
-        perm_index = None
-        if has_permutations and indices[0] != "0":
-            assert self._permutations > 1
-            match = re.search(r"quadrature_permutation\[(\d+)\]", indices[0])
+        side = None
+        if self.is_two_sided():
+            pattern = r"(?:quadrature_permutation|entity_local_index)\[(\d+)\]"
+            match = re.search(pattern, indices[0]) or re.search(pattern, indices[1])
             assert match
-            perm_index = int(match.group(1))
+            side = int(match.group(1))
+
+        pt_index = indices[2]
+        n_quad_pts = self._quad_data.rule.points.shape[0]  # type: ignore
+        if n_quad_pts == 1 and quad_name == self.quad_name:
+            pt_index = "iq"
 
         def transform_index(index: str) -> int | str:
             index = index.replace(" ", "")
@@ -435,16 +460,16 @@ class FETable:
 
         # Permutation and entity indices are discarded.
         offsets = [f"{self._funcs} * ", ""]
-        for index, offset in zip(indices[2:], offsets):
+        for index, offset in zip((pt_index, indices[3]), offsets):
             new_index = transform_index(index)
             if new_index != 0:
-                terms.append(f"{offset}{index}")
+                terms.append(f"{offset}{new_index}")
 
-        plain_index = " + ".join(terms)
+        plain_index = " + ".join(terms) if terms else "0"
 
         new_access = f"{self._name}"
-        if perm_index is not None:
-            new_access += f"[{perm_index}]"
+        if side is not None:
+            new_access += f"[{side}]"
         new_access += f"[{plain_index}]"
 
         return new_access
-- 
2.43.0


From ca56b95eb57434d1b404abd4905db6a15abecfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:53 +0000
Subject: [PATCH 35/66] fix: quadratures of facets with only unfitted boundary
 failed an assertion

---
 cpp/qugar/impl_quadrature.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index a79ed6d..2f0d90e 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -401,7 +401,8 @@ namespace {
   {
     static_assert(dim == 2 || dim == 3, "Invalid dimension.");
     assert(0 < n_pts_dir);
-    assert(unf_domain.is_cut_facet(cell_id, local_facet_id));
+    assert(unf_domain.is_cut_facet(cell_id, local_facet_id)
+           || unf_domain.has_unfitted_boundary(cell_id, local_facet_id));
 
     const int const_dir = get_facet_constant_dir<dim>(local_facet_id);
     const int side = get_facet_side<dim>(local_facet_id);
@@ -440,7 +441,8 @@ namespace {
     static_assert(dim == 2 || dim == 3, "Invalid dimension.");
 
     assert(0 < n_pts_dir);
-    assert(unf_domain.is_cut_facet(cell_id, local_facet_id));
+    assert(unf_domain.is_cut_facet(cell_id, local_facet_id)
+           || unf_domain.has_unfitted_boundary(cell_id, local_facet_id));
 
 
     const auto grid = unf_domain.get_grid();
-- 
2.43.0


From d50891a7b1a4faa596f6848e0094f124825c1590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:31 +0000
Subject: [PATCH 36/66] fix: points on the external boundary were kept in
 quadratures of facets without unfitted boundary

---
 cpp/qugar/impl_quadrature.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index 2f0d90e..45715f0 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -302,7 +302,8 @@ namespace {
   {
     const bool has_unf_bdry = unf_domain.has_unfitted_boundary(cell_id, local_facet_id);
     purge_unf_bdry = purge_unf_bdry && has_unf_bdry;
-    purge_unf_ext_bdry = purge_unf_ext_bdry && has_unf_bdry;
+    purge_unf_ext_bdry =
+      purge_unf_ext_bdry && (has_unf_bdry || unf_domain.has_external_boundary(cell_id, local_facet_id));
     purge_cut = purge_cut && unf_domain.is_cut_facet(cell_id, local_facet_id);
 
     if (!purge_unf_bdry && !purge_unf_ext_bdry && !purge_cut) {
-- 
2.43.0


From c75ce07f5eceddc376f6c96274feb4a3622faf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:31 +0000
Subject: [PATCH 37/66] fix: boundary points of the neighbour on a facet were
 kept in cells without unfitted boundary there

---
 cpp/qugar/impl_quadrature.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index 45715f0..77b8f21 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -573,9 +573,7 @@ void create_cell_unfitted_bound_quadrature(const UnfittedImplDomain<dim> &unf_do
 
     // We remove generated points on facets.
     for (int local_facet_id = 0; local_facet_id < n_local_facets; ++local_facet_id) {
-      if (unf_domain.has_unfitted_boundary(cell_id, local_facet_id)) {
-        purge_facet_points(*phi, unf_domain, cell_id, local_facet_id, quad);
-      }
+      purge_facet_points(*phi, unf_domain, cell_id, local_facet_id, quad);
     }
   } else {
     // it's full with unfitted boundaries.
-- 
2.43.0


From 99b5b6d2bdfb3c4e16310354532c448d08936f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:19 +0000
Subject: [PATCH 38/66] fix: bent edges of reparameterizations were taken as
 edges of the domain

---
 cpp/qugar/reparam_mesh.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/cpp/qugar/reparam_mesh.cpp b/cpp/qugar/reparam_mesh.cpp
index c0c6366..87d8afa 100644
--- a/cpp/qugar/reparam_mesh.cpp
+++ b/cpp/qugar/reparam_mesh.cpp
@@ -590,18 +590,24 @@ bool ReparamMesh<dim, range>::check_edge_in_subdomain(const std::vector<std::siz
     return bounds;
   };
 
-  const auto bounds_0 = get_bounds(edge_points_ids.front());
-
-  return std::ranges::none_of(edge_points_ids, [bounds_0, get_bounds](const auto &pt_id) {
-    const auto bounds = get_bounds(pt_id);
-    int n_bounds{ 0 };
+  // Bounds shared by all the points of the edge.
+  auto bounds = get_bounds(edge_points_ids.front());
+  for (const auto &pt_id : edge_points_ids) {
+    const auto pt_bounds = get_bounds(pt_id);
     for (int dir = 0; dir < range; ++dir) {
-      if (bounds_0(dir) >= 0 && bounds_0(dir) == bounds(dir)) {
-        ++n_bounds;
+      if (bounds(dir) != pt_bounds(dir)) {
+        bounds(dir) = -1;
       }
     }
-    return n_bounds < sub_dim;
-  });
+  }
+
+  int n_bounds{ 0 };
+  for (int dir = 0; dir < range; ++dir) {
+    if (bounds(dir) >= 0) {
+      ++n_bounds;
+    }
+  }
+  return n_bounds >= sub_dim;
 }
 
 template<int dim, int range> void ReparamMesh<dim, range>::merge_coincident_points(const Tolerance &tol)
-- 
2.43.0


From 78be3236df37956d85288a753c5fa579e23f7a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:30 +0000
Subject: [PATCH 39/66] fix: files named by multi-block VTK files were not
 found when written in another folder

---
 cpp/qugar/reparam_mesh.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/reparam_mesh.cpp b/cpp/qugar/reparam_mesh.cpp
index 87d8afa..a89bc01 100644
--- a/cpp/qugar/reparam_mesh.cpp
+++ b/cpp/qugar/reparam_mesh.cpp
@@ -36,6 +36,7 @@
 #include <cassert>
 #include <cstddef>
 #include <cstring>
+#include <filesystem>
 #include <fstream>
 #include <iomanip>
 #include <limits>
@@ -748,13 +749,16 @@ template<int dim, int range> void ReparamMesh<dim, range>::write_VTK_file(const
   const auto wirebasket_filename = filename + "_wb";
   write_reparam_to_VTK_cells<1, range>(this->points_, this->wires_connectivity_, this->order_, wirebasket_filename);
 
+  // The paths in the file are relative to the directory in which it is.
+  const auto base_filename = std::filesystem::path(filename).filename().string();
+
   std::ofstream stream(filename + ".vtmb");
   stream << R"(<?xml version="1.0"?>)" << "\n";
   stream << R"(<VTKFile type="vtkMultiBlockDataSet" version="1.0" byte_order="LittleEndian">)" << "\n";
   stream << "  <vtkMultiBlockDataSet>\n";
 
-  stream << R"(    <DataSet index="0" name="interior" file=")" << filename << R"(.vtu"/>)" << "\n";
-  stream << R"(    <DataSet index="1" name="boundary" file=")" << wirebasket_filename << R"(.vtu"/>)" << "\n";
+  stream << R"(    <DataSet index="0" name="interior" file=")" << base_filename << R"(.vtu"/>)" << "\n";
+  stream << R"(    <DataSet index="1" name="boundary" file=")" << base_filename << R"(_wb.vtu"/>)" << "\n";
 
   stream << "  </vtkMultiBlockDataSet>\n";
   stream << "</VTKFile>\n";
-- 
2.43.0


From de443addbb98441de4be59b171c4141884f7893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:55 +0000
Subject: [PATCH 40/66] fix: reparameterization: take the reference roots of a
 restriction, not the one at its index

---
 cpp/qugar/impl_reparam_general.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_reparam_general.cpp b/cpp/qugar/impl_reparam_general.cpp
index 5bbda27..f679bd5 100644
--- a/cpp/qugar/impl_reparam_general.cpp
+++ b/cpp/qugar/impl_reparam_general.cpp
@@ -403,7 +403,7 @@ template<int dim, int range, typename R, bool S, bool T = true> struct ImplicitG
 
     for (int i = 0; i < ref_intervals.get_num_roots(); ++i) {
       if (at(ref_intervals.func_ids, i) == psi_id) {
-        ref_roots.push_back(at(ref_intervals.roots, psi_id));
+        ref_roots.push_back(at(ref_intervals.roots, i));
       }
     }
 
-- 
2.43.0


From 8808e53d81c37b267afd8a9218e8872727a89d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:46 +0000
Subject: [PATCH 41/66] fix: reparameterization: cells collapsed for functions
 of large values, whose roots at the cell boundary were missed

---
 cpp/qugar/impl_reparam_general.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/impl_reparam_general.cpp b/cpp/qugar/impl_reparam_general.cpp
index f679bd5..587dca2 100644
--- a/cpp/qugar/impl_reparam_general.cpp
+++ b/cpp/qugar/impl_reparam_general.cpp
@@ -36,7 +36,9 @@
 #include <algoim/quadrature_general.hpp>
 #include <algoim/uvector.hpp>
 
+#include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <cstddef>
 #include <functional>
 #include <memory>
@@ -458,9 +460,10 @@ template<int dim, int range, typename R, bool S, bool T = true> struct ImplicitG
     bool root_1{ false };
 
     // Check if the points x0 or x1 are roots of the function
-    // up to different tolerances.
+    // up to different tolerances, relative to the size of the function.
+    const real size = std::max(numbers::one, std::max(std::abs(val_0), std::abs(val_1)));
     for (int i = 0; i < 4; ++i) {
-      const Tolerance new_tol(tol.value() * pow(10.0, i));
+      const Tolerance new_tol(tol.value() * size * pow(10.0, i));
       root_0 = new_tol.is_zero(val_0);
       root_1 = new_tol.is_zero(val_1);
       if (root_0 || root_1) {
-- 
2.43.0


From e9ac607ef4f9fe5c79c20356ff632c3dedcd82d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:03 +0000
Subject: [PATCH 42/66] fix: reparameterization: Bezier polynomials positive
 everywhere yielded the full cell instead of nothing

---
 cpp/qugar/impl_reparam_bezier.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/impl_reparam_bezier.cpp b/cpp/qugar/impl_reparam_bezier.cpp
index 117dcc7..024f859 100644
--- a/cpp/qugar/impl_reparam_bezier.cpp
+++ b/cpp/qugar/impl_reparam_bezier.cpp
@@ -724,8 +724,8 @@ namespace {
         const auto mask = alg::detail::nonzeroMask(xarray, alg::booluarray<range, ALGOIM_M>(true));
         if (alg::detail::maskEmpty(mask)) {
           if (0.0 < alg::bernstein::evalBernsteinPoly<range>(xarray, Point<range>(numbers::half))) {
-            quad = std::make_shared<ImplicitPolyReparam<range, range, S>>(order, reparam);// Inactive domain.
-            break;
+            // Inactive domain: it must not be built, as without polynomials the full domain is reparameterized.
+            return std::make_shared<ImplicitPolyReparam<range, range, S>>(order, reparam);
           }
         } else {
           quad->phi_.push_back(xarray, mask);
-- 
2.43.0


From 8621465a74c5b7de809217b2b7bbea2fbb8eb352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:04 +0000
Subject: [PATCH 43/66] fix: integrands over tuples of unfitted boundaries had
 the ratio of areas twice

---
 python/qugar/dolfinx/boundary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/qugar/dolfinx/boundary.py b/python/qugar/dolfinx/boundary.py
index c863efc..851c700 100644
--- a/python/qugar/dolfinx/boundary.py
+++ b/python/qugar/dolfinx/boundary.py
@@ -212,6 +212,10 @@ class ds_bdry_unf(ufl.Measure):
 
         Integration properties are taken from this Measure object.
         """
+        if isinstance(self.subdomain_id(), tuple):
+            # UFL splits the measure into one (reconstructed) measure
+            # for each id, and each of them introduces the complement.
+            return super().__rmul__(integrand)
         return super().__rmul__(integrand * self._measure_complement)
 
     def reconstruct(
-- 
2.43.0


From 75a1d6e50936503f99f4ac3a3256d00ed969173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:03 +0000
Subject: [PATCH 44/66] fix: forms with exterior facet integrals everywhere
 were modified when compiled, and could reuse the id of a subdomain

---
 python/qugar/dolfinx/forms.py | 67 +++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index 63a5567..877e7c0 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -21,6 +21,7 @@
 from __future__ import annotations
 
 import collections.abc
+import numbers
 import types
 import typing
 from itertools import chain
@@ -145,37 +146,44 @@ def _modify_everywhere_exterior_facet_integrals(form):
         form: The dolfinx form object.
 
     Returns:
-        The modified dolfinx form object.
+        A new form (the given one, and its integrals, are not
+        modified), or the given form if there is nothing to modify.
     """
 
-    def _get_max_subdomain_id():
-        subdomain_id = -1
-        for integral in form.integrals():
-            if integral.integral_type() == "exterior_facet":
-                if isinstance(integral.subdomain_id(), int):
-                    subdomain_id = max(subdomain_id, integral.subdomain_id())
-        return subdomain_id + 1
-
-    old_integrals = list(form.integrals())
-
-    for i, integral in enumerate(form.integrals()):
-        if integral.integral_type() == "exterior_facet":
-            # Check if the integral is over the whole domain
-            if integral.subdomain_id() in ("everywhere", -1):
-                old_integrals[i] = integral.reconstruct(
-                    integral.integrand(),
-                    integral.integral_type(),
-                    integral.ufl_domain(),
-                    integral.subdomain_id(),
-                    integral.metadata().copy(),
-                    integral.subdomain_id(),
-                )
+    def _is_everywhere(integral):
+        return integral.integral_type() == "exterior_facet" and integral.subdomain_id() in (
+            "everywhere",
+            -1,
+        )
 
-                integral._subdomain_data = None
-                integral._subdomain_id = _get_max_subdomain_id()
-                integral._metadata.update({"ext_facet_everywhere": True})
+    if not any(map(_is_everywhere, form.integrals())):
+        return form
 
-    return form, tuple(old_integrals)
+    def _get_used_subdomain_ids():
+        for integral in form.integrals():
+            if integral.integral_type() == "exterior_facet":
+                ids = integral.subdomain_id()
+                yield from ids if isinstance(ids, tuple) else (ids,)
+                if isinstance(integral.subdomain_data(), list):
+                    yield from (subdomain[0] for subdomain in integral.subdomain_data())
+
+    new_id = 1 + max(
+        (int(id) for id in _get_used_subdomain_ids() if isinstance(id, numbers.Integral)),
+        default=-1,
+    )
+
+    new_integrals = []
+    for integral in form.integrals():
+        # Check if the integral is over the whole domain
+        if _is_everywhere(integral):
+            metadata = {**integral.metadata(), "ext_facet_everywhere": True}
+            integral = integral.reconstruct(subdomain_id=new_id, metadata=metadata)
+            # ``reconstruct`` keeps the former data when receiving ``None``.
+            integral._subdomain_data = None
+            new_id += 1
+        new_integrals.append(integral)
+
+    return ufl.Form(new_integrals)
 
 
 def form_custom(
@@ -246,7 +254,7 @@ def form_custom(
         # replaces the ``"everywhere"`` subdomain id with a fresh
         # numerical one and tags the integral with a metadata flag so
         # the unfitted facets can be attached later.
-        form, old_integrals = _modify_everywhere_exterior_facet_integrals(form)
+        form = _modify_everywhere_exterior_facet_integrals(form)
 
         # Extract subdomain data from UFL form
         sd = form.subdomain_data()
@@ -334,9 +342,6 @@ def form_custom(
             ext_facets = unf_domain.get_all_facets(ext_integral=True).as_array()
             subdomains[IntegralType.exterior_facet].append((subdomain_id, ext_facets))
 
-        # Reverting modified exterior integrals
-        form._integrals = old_integrals
-
         if entity_maps is None:
             _entity_maps = []
         else:
-- 
2.43.0


From 364b95098631253f556ef4bd50f750a4879a6fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:04 +0000
Subject: [PATCH 45/66] fix: lists of forms were compiled into empty lists

---
 python/qugar/dolfinx/forms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index 877e7c0..e835cb3 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -363,6 +363,8 @@ def form_custom(
         for i in lst:
             if isinstance(i, list):
                 new_lst.extend(_flatten_list(i))
+            else:
+                new_lst.append(i)
         return new_lst
 
     def _create_form(form) -> CustomForm | None | list[CustomForm | None]:
-- 
2.43.0


From 382472e1a6be142069060870e594db8c2e2e31dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:46 +0000
Subject: [PATCH 46/66] fix: integrals over unfitted boundaries of different
 degrees used the quadrature of the last one

---
 python/qugar/dolfinx/quadrature_data.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/quadrature_data.py b/python/qugar/dolfinx/quadrature_data.py
index 7a8ef72..4667fbe 100644
--- a/python/qugar/dolfinx/quadrature_data.py
+++ b/python/qugar/dolfinx/quadrature_data.py
@@ -139,6 +139,11 @@ def extract_quadrature_data(
         for itg_data in fd.integral_data:
             for itg in itg_data.integrals:
                 quad_data = _extract_single_quadrature_data(itg, fd, ffcx_options)
-                quads_data[quad_data.name] = quad_data
+                # Integrals with different degrees may share the same rule
+                # (e.g., all those over unfitted boundaries), and therefore
+                # the custom quadrature: the highest degree is kept.
+                other = quads_data.get(quad_data.name)
+                if other is None or other.degree < quad_data.degree:
+                    quads_data[quad_data.name] = quad_data
 
     return quads_data
-- 
2.43.0


From 74748892ddad68c5c39793bf0e14b87561dd262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:46 +0000
Subject: [PATCH 47/66] fix: updating the coefficients of a list of forms gave
 each form those of the whole list

---
 python/qugar/dolfinx/petsc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/qugar/dolfinx/petsc.py b/python/qugar/dolfinx/petsc.py
index 93863a5..9596094 100644
--- a/python/qugar/dolfinx/petsc.py
+++ b/python/qugar/dolfinx/petsc.py
@@ -95,20 +95,21 @@ def _update_coefficients(
             The packed coefficients.
     """  # noqa: E501
 
-    def _update(form):
+    def _update(form, old_coeffs):
         if isinstance(form, CustomForm):
             return form.update_coefficients(old_coeffs)
         else:
             return list(
                 map(
-                    lambda sub_form: typing.cast(
-                        dict[tuple[IntegralType, int], npt.NDArray], _update(sub_form)
+                    lambda sub_form, sub_coeffs: typing.cast(
+                        dict[tuple[IntegralType, int], npt.NDArray], _update(sub_form, sub_coeffs)
                     ),
                     form,
+                    old_coeffs,
                 )
             )
 
-    return _update(form)
+    return _update(form, old_coeffs)
 
 
 class LinearProblem(dolfinx.fem.petsc.LinearProblem):
-- 
2.43.0


From 403fb418b341a4ddf2c0e34d3f41fcf39b18df9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:45 +0000
Subject: [PATCH 48/66] fix: versions of post-releases of the dependencies
 raised an exception when importing qugar

---
 python/qugar/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/qugar/utils.py b/python/qugar/utils.py
index 64b899b..5213eff 100644
--- a/python/qugar/utils.py
+++ b/python/qugar/utils.py
@@ -9,6 +9,7 @@
 # --------------------------------------------------------------------------
 
 import importlib.util
+import re
 from typing import Tuple, cast
 
 DOLFINX_VERSION_MIN = "0.10.0"
@@ -54,7 +55,8 @@ The imported UFL version must be smaller than this version.
 
 def _extract_version(version_str: str) -> Tuple[int, int, int]:
     """Extracts the major, minor, and revision numbers of a string with
-    with format "X.Y.Z".
+    with format "X.Y.Z". Anything after Z (as in "X.Y.Z.post1" or
+    "X.Y.Zrc1") is ignored.
 
     Args:
         version_str (str): Version sring with format "X.Y.Z".
@@ -63,7 +65,9 @@ def _extract_version(version_str: str) -> Tuple[int, int, int]:
         Tuple[int,int,int]: Major, minor, and revision numbers (i.e.,
         X, Y, and Z).
     """
-    vals = tuple(int(val) for val in version_str.split("."))
+    match = re.match(r"(\d+)\.(\d+)\.(\d+)", version_str)
+    assert match is not None
+    vals = tuple(int(val) for val in match.groups())
     vals = cast(Tuple[int, int, int], vals)
     assert len(vals) == 3
     return vals
-- 
2.43.0


From 6e63311231c18166f3a83fc20063d0e939772dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:45 +0000
Subject: [PATCH 49/66] fix: versions with a smaller minor or revision number
 than the minimum one were found too old

---
 python/qugar/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/qugar/utils.py b/python/qugar/utils.py
index 5213eff..06bf822 100644
--- a/python/qugar/utils.py
+++ b/python/qugar/utils.py
@@ -109,10 +109,10 @@ def _compare_version_le(version_lhs: str, version_rhs: str) -> bool:
     lhs = _extract_version(version_lhs)
     rhs = _extract_version(version_rhs)
 
-    if lhs[0] > rhs[0]:
-        return False
-    elif lhs[1] > rhs[1]:
-        return False
+    if lhs[0] != rhs[0]:
+        return lhs[0] < rhs[0]
+    elif lhs[1] != rhs[1]:
+        return lhs[1] < rhs[1]
     else:
         return lhs[2] <= rhs[2]
 
-- 
2.43.0


From 5c9d15df9c96a477e687dbd00a134b2e83741f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:56 +0000
Subject: [PATCH 50/66] fix: interrupted or running builds of the basix shim
 left a library that was taken for a valid one

---
 python/qugar/dolfinx/_shim/__init__.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/_shim/__init__.py b/python/qugar/dolfinx/_shim/__init__.py
index 311f45a..410f3a5 100644
--- a/python/qugar/dolfinx/_shim/__init__.py
+++ b/python/qugar/dolfinx/_shim/__init__.py
@@ -144,6 +144,10 @@ def ensure_built() -> tuple[Path, str]:
         if lib.exists() and lib.stat().st_mtime >= src_mtime:
             return cache, LIB_NAME
 
+        # Compile into a temporary file that only takes the library's name
+        # once it is complete: neither an interrupted build nor one that is
+        # still running leaves a library that could be taken for a valid one.
+        tmp = lib.with_name(f".{os.getpid()}.{_LIB_FILENAME}")
         prefix = Path(sys.prefix)
         cmd = [
             str(_find_cxx()),
@@ -156,18 +160,23 @@ def ensure_built() -> tuple[Path, str]:
             "-lbasix",
             f"-Wl,-rpath,{prefix / 'lib'}",
             "-o",
-            str(lib),
+            str(tmp),
             str(SHIM_SRC),
         ]
         # Align the shim's macOS deployment target with what cffi will use
         # when it links the kernel (otherwise ld warns "built for newer
         # version X" because conda clang's default target is much newer).
         if sys.platform == "darwin":
+            cmd.insert(cmd.index("-o"), f"-Wl,-install_name,{lib}")
             target = (os.environ.get("MACOSX_DEPLOYMENT_TARGET")
                       or sysconfig.get_config_var("MACOSX_DEPLOYMENT_TARGET"))
             if target:
                 cmd.insert(cmd.index("-o"), f"-mmacosx-version-min={target}")
-        subprocess.run(cmd, check=True)
+        try:
+            subprocess.run(cmd, check=True)
+            os.replace(tmp, lib)
+        finally:
+            tmp.unlink(missing_ok=True)
         return cache, LIB_NAME
 
 
-- 
2.43.0


From b3c8817d2e692e7f06c2a0f3f181b51017e221f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:26 +0000
Subject: [PATCH 51/66] fix: BoundBox.mid_point binding returned an array over
 a destroyed point

---
 python/nanobind_wrappers/common.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/nanobind_wrappers/common.cpp b/python/nanobind_wrappers/common.cpp
index 283ea60..41a61be 100644
--- a/python/nanobind_wrappers/common.cpp
+++ b/python/nanobind_wrappers/common.cpp
@@ -82,8 +82,10 @@ namespace {
       .def_prop_ro(
         "mid_point",
         [](BBox &bbox) {
+          // The point is a temporary: there is a copy here.
+          const auto mid_point = bbox.mid_point();
           using Array = nb::ndarray<const real, nb::numpy, nb::shape<dim>, nb::c_contig>;
-          return Array(bbox.mid_point().data(), { dim }, nb::handle());
+          return Array(mid_point.data(), { dim }, nb::handle()).cast();
         },
         nb::rv_policy::reference_internal)
       .def_prop_ro("volume", &BBox::volume)
-- 
2.43.0


From 0a4b511657f562f24f017af96206ad696f954e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:26 +0000
Subject: [PATCH 52/66] fix: unfitted domain bindings kept references to
 destroyed local lambdas

---
 python/nanobind_wrappers/unf_domain.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/python/nanobind_wrappers/unf_domain.cpp b/python/nanobind_wrappers/unf_domain.cpp
index 9a55db6..9d2ed3c 100644
--- a/python/nanobind_wrappers/unf_domain.cpp
+++ b/python/nanobind_wrappers/unf_domain.cpp
@@ -54,7 +54,7 @@ namespace {
     };
 
     const auto get_cells =
-      [&make_tuple](const auto &accessor_0,
+      [make_tuple](const auto &accessor_0,
         const auto &accessor_1,
         const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
         std::vector<std::int64_t> cell_ids;
@@ -74,7 +74,7 @@ namespace {
       };
 
     const auto get_facets =
-      [&make_tuple](const auto &accessor_0,
+      [make_tuple](const auto &accessor_0,
         const auto &accessor_1,
         const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
         const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
@@ -113,7 +113,7 @@ namespace {
         "has_facets_with_unf_bdry", [](const UnfDomain &domain) { return domain.has_facets_with_unf_bdry(); })
       .def(
         "get_full_cells",
-        [&get_cells](const UnfDomain &domain,
+        [get_cells](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_full_cells(target_cell_ids, cell_ids);
@@ -125,7 +125,7 @@ namespace {
         nb::arg("target_cell_ids") = nb::none())
       .def(
         "get_empty_cells",
-        [&get_cells](const UnfDomain &domain,
+        [get_cells](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_empty_cells(target_cell_ids, cell_ids);
@@ -137,7 +137,7 @@ namespace {
         nb::arg("target_cell_ids") = nb::none())
       .def(
         "get_cut_cells",
-        [&get_cells](const UnfDomain &domain,
+        [get_cells](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_cut_cells(target_cell_ids, cell_ids);
@@ -149,7 +149,7 @@ namespace {
         nb::arg("target_cell_ids") = nb::none())
       .def(
         "get_empty_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -167,7 +167,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_full_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -185,7 +185,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_cut_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -203,7 +203,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_unf_bdry_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -221,7 +221,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_full_unf_bdry_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
-- 
2.43.0


From 2618df97497c5249e4c7e407ffac3ea68f98618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:26 +0000
Subject: [PATCH 53/66] fix: misspelled name in an assertion of the unfitted
 domain bindings

---
 python/nanobind_wrappers/unf_domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/nanobind_wrappers/unf_domain.cpp b/python/nanobind_wrappers/unf_domain.cpp
index 9d2ed3c..d16a1c3 100644
--- a/python/nanobind_wrappers/unf_domain.cpp
+++ b/python/nanobind_wrappers/unf_domain.cpp
@@ -82,7 +82,7 @@ namespace {
         std::vector<int> local_facet_ids;
 
         if (target_cell_ids_py.has_value()) {
-          assert(target_local_facets_ids_py.has_value());
+          assert(target_local_facet_ids_py.has_value());
 
           const std::span<const std::int64_t> cells_span(
             target_cell_ids_py.value().data(), target_cell_ids_py.value().size());
-- 
2.43.0


From 9a114245eabe9b47a0f17438cc273e04f57944da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:26 +0000
Subject: [PATCH 54/66] fix: bindings read strided arrays as if they were
 contiguous

---
 python/nanobind_wrappers/common.cpp     |  2 +-
 python/nanobind_wrappers/cut_quad.cpp   | 10 ++++----
 python/nanobind_wrappers/reparam.cpp    |  2 +-
 python/nanobind_wrappers/unf_domain.cpp | 34 ++++++++++++-------------
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/python/nanobind_wrappers/common.cpp b/python/nanobind_wrappers/common.cpp
index 41a61be..b542b6d 100644
--- a/python/nanobind_wrappers/common.cpp
+++ b/python/nanobind_wrappers/common.cpp
@@ -118,7 +118,7 @@ namespace {
   template<int dim> void declare_cartesian_grid_tp(nb::module_ &module)
   {
     using Grid = CartGridTP<dim>;
-    using BreaksArray = nb::ndarray<const real, nb::numpy, nb::shape<-1>>;
+    using BreaksArray = nb::ndarray<const real, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     const std::string pyclass_name{ std::string("CartGridTP_") + std::to_string(dim) + "D" };
     // NOLINTNEXTLINE (bugprone-unused-raii)
diff --git a/python/nanobind_wrappers/cut_quad.cpp b/python/nanobind_wrappers/cut_quad.cpp
index b3b7241..3e28ccd 100644
--- a/python/nanobind_wrappers/cut_quad.cpp
+++ b/python/nanobind_wrappers/cut_quad.cpp
@@ -173,8 +173,8 @@ namespace {
 
   template<int dim> void create_quadrature(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
-    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
+    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_quadrature",
@@ -191,7 +191,7 @@ namespace {
 
   template<int dim> void create_unfitted_bound_quadrature(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_unfitted_bound_quadrature",
@@ -216,8 +216,8 @@ namespace {
 
   template<int dim> void create_facets_quadrature(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
-    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
+    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_facets_quadrature_interior_integral",
diff --git a/python/nanobind_wrappers/reparam.cpp b/python/nanobind_wrappers/reparam.cpp
index 5986420..baea45a 100644
--- a/python/nanobind_wrappers/reparam.cpp
+++ b/python/nanobind_wrappers/reparam.cpp
@@ -96,7 +96,7 @@ namespace {
 
   template<int dim> void create_reparam(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_reparameterization",
diff --git a/python/nanobind_wrappers/unf_domain.cpp b/python/nanobind_wrappers/unf_domain.cpp
index d16a1c3..4ca8e1d 100644
--- a/python/nanobind_wrappers/unf_domain.cpp
+++ b/python/nanobind_wrappers/unf_domain.cpp
@@ -56,7 +56,7 @@ namespace {
     const auto get_cells =
       [make_tuple](const auto &accessor_0,
         const auto &accessor_1,
-        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
         std::vector<std::int64_t> cell_ids;
 
         if (target_cell_ids_py.has_value()) {
@@ -76,8 +76,8 @@ namespace {
     const auto get_facets =
       [make_tuple](const auto &accessor_0,
         const auto &accessor_1,
-        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-        const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+        const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
         std::vector<std::int64_t> cell_ids;
         std::vector<int> local_facet_ids;
 
@@ -114,7 +114,7 @@ namespace {
       .def(
         "get_full_cells",
         [get_cells](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_full_cells(target_cell_ids, cell_ids);
           };
@@ -126,7 +126,7 @@ namespace {
       .def(
         "get_empty_cells",
         [get_cells](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_empty_cells(target_cell_ids, cell_ids);
           };
@@ -138,7 +138,7 @@ namespace {
       .def(
         "get_cut_cells",
         [get_cells](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_cut_cells(target_cell_ids, cell_ids);
           };
@@ -150,8 +150,8 @@ namespace {
       .def(
         "get_empty_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -168,8 +168,8 @@ namespace {
       .def(
         "get_full_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -186,8 +186,8 @@ namespace {
       .def(
         "get_cut_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -204,8 +204,8 @@ namespace {
       .def(
         "get_unf_bdry_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -222,8 +222,8 @@ namespace {
       .def(
         "get_full_unf_bdry_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -273,7 +273,7 @@ namespace {
       nb::arg("impl_func"),
       nb::arg("grid"));
 
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_unfitted_impl_domain",
-- 
2.43.0


From 6368aa09b80839448280fb97fcb4b5706c894555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:41 +0000
Subject: [PATCH 55/66] fix: create_box called functions that do not exist when
 given an affine transformation

---
 python/qugar/impl/impl_function.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/python/qugar/impl/impl_function.py b/python/qugar/impl/impl_function.py
index fffd00c..99cf11a 100644
--- a/python/qugar/impl/impl_function.py
+++ b/python/qugar/impl/impl_function.py
@@ -541,7 +541,8 @@ def create_box(
             is created.
         dim (Optional[int]):
             The dimension of the box. Must be either 2 or 3. If affine_trans is provided,
-            this must match the dimension of the affine transformation. If None, defaults to 2.
+            this must match the dimension of the affine transformation. If None, defaults to
+            the dimension of the affine transformation, if provided, and to 2 otherwise.
 
     Returns:
         ImplicitFunc: An implicit function representing the created box.
@@ -561,14 +562,10 @@ def create_box(
             cpp_obj = qugar.cpp.create_square_3D()
 
     else:
-        assert dim == (2 if isinstance(affine_trans, qugar.cpp.AffineTransf_2D) else 3), (
-            "Non-matching affine transformation and dimension"
-        )
+        dim_trans = 2 if isinstance(affine_trans, qugar.cpp.AffineTransf_2D) else 3
+        assert dim is None or dim == dim_trans, "Non-matching affine transformation and dimension"
 
-        if dim == 2:
-            cpp_obj = qugar.cpp.create_square_2D(affine_trans)
-        else:
-            cpp_obj = qugar.cpp.create_square_3D(affine_trans)
+        cpp_obj = qugar.cpp.create_square(affine_trans)
 
     return ImplicitFunc(cpp_obj)
 
-- 
2.43.0


From d521188aa61b2c67730829175ea0206452099884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:41 +0000
Subject: [PATCH 56/66] fix: create_ellipsoid accepted semi-axes that are not
 positive

---
 python/qugar/impl/impl_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/impl/impl_function.py b/python/qugar/impl/impl_function.py
index 99cf11a..fc3994d 100644
--- a/python/qugar/impl/impl_function.py
+++ b/python/qugar/impl/impl_function.py
@@ -218,7 +218,7 @@ def create_ellipsoid(
     """
 
     assert semi_axes.size == 3, "Invalid semi-axes dimension. It must have 3 coordinates"
-    semi_axes = semi_axes.astype(np.float64)
+    assert np.all(semi_axes > 0.0), "Invalid semi-axes. They must be all positive"
     semi_axes = semi_axes.astype(np.float64)
 
     if ref_system is None:
-- 
2.43.0


From 0dc3047bf66f9919ff84ff970f4191acec896ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:41 +0000
Subject: [PATCH 57/66] fix: create_torus did not check the sizes of the center
 and the axis

---
 python/qugar/impl/impl_function.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/qugar/impl/impl_function.py b/python/qugar/impl/impl_function.py
index fc3994d..bb9a715 100644
--- a/python/qugar/impl/impl_function.py
+++ b/python/qugar/impl/impl_function.py
@@ -344,6 +344,11 @@ def create_torus(
     minor_radius = np.float64(minor_radius)
     assert minor_radius > 0.0, "Invalid outer radius. It must be positive"
 
+    assert center is None or center.size == 3, (
+        "Invalid center dimension. It must have 3 coordinates"
+    )
+    assert axis is None or axis.size == 3, "Invalid axis dimension. It must have 3 coordinates"
+
     if center is None:
         if axis is None:
             return ImplicitFunc(qugar.cpp.create_torus(major_radius, minor_radius, use_bzr))
-- 
2.43.0


From 7b320ac71c3ce129f7630eb75894f7ea5791653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:31 +0000
Subject: [PATCH 58/66] fix: exported cells of unfitted meshes had the status
 of other cells

---
 python/qugar/plot/pyvista_tools.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/qugar/plot/pyvista_tools.py b/python/qugar/plot/pyvista_tools.py
index 39ce782..be2b5aa 100644
--- a/python/qugar/plot/pyvista_tools.py
+++ b/python/qugar/plot/pyvista_tools.py
@@ -618,6 +618,13 @@ def unfitted_domain_to_PyVista(
     status = np.full(n_cells, 2, dtype=np.uint8)
     cut_cells = domain.get_cut_cells()
     full_cells = domain.get_full_cells()
+    if not is_cpp:
+        # The cells of the grid follow the lexicographical (original) ordering.
+        lex_cell_ids = grid.cell_data["Lexicographical cell ids"]
+        cut_cells, full_cells = (
+            np.searchsorted(lex_cell_ids, domain.mesh.get_original_cell_ids(cells))
+            for cells in (cut_cells, full_cells)
+        )
     value[cut_cells] = cut
     status[cut_cells] = 1
     value[full_cells] = full
-- 
2.43.0


From 1010a236a586792b379e92022b35aaee391090e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:31 +0000
Subject: [PATCH 59/66] fix: exported facets of unfitted domains were other
 facets, or raised an error

---
 python/qugar/plot/pyvista_tools.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/python/qugar/plot/pyvista_tools.py b/python/qugar/plot/pyvista_tools.py
index be2b5aa..ef3d6ac 100644
--- a/python/qugar/plot/pyvista_tools.py
+++ b/python/qugar/plot/pyvista_tools.py
@@ -525,10 +525,13 @@ def unfitted_domain_facets_to_PyVista(
             FEniCSx installation is not found.
     """
 
+    is_cpp = isinstance(domain, (UnfittedDomain_2D, UnfittedDomain_3D))
+
     grid = unfitted_domain_to_PyVista(domain, cut=True, full=True, empty=True)
     n_cells = grid.n_cells
+    lex_cell_ids = np.array(grid.cell_data["Lexicographical cell ids"])
 
-    dim = domain.tdim
+    dim = domain.dim if is_cpp else domain.tdim
     assert 2 <= dim <= 3, "Invalid dimension."
 
     grid = cast(pv.DataSet, grid.explode(factor=0.0))
@@ -555,9 +558,15 @@ def unfitted_domain_facets_to_PyVista(
     if empty:
         facets[2] = domain.get_empty_facets()
 
-    for status, lex_cells_facets in facets.items():
-        vtk_facets = vtk_lex_mask[lex_cells_facets.local_facet_ids]
-        vtk_cells = lex_cells_facets.cell_ids * n_facets_per_cell + vtk_facets
+    for status, cells_facets in facets.items():
+        if is_cpp:
+            lex_cells, lex_local_facets = cells_facets
+        else:
+            orig_facets = cells_facets.to_original(domain.mesh)
+            lex_cells, lex_local_facets = orig_facets.cell_ids, orig_facets.local_facet_ids
+
+        vtk_facets = vtk_lex_mask[lex_local_facets]
+        vtk_cells = np.searchsorted(lex_cell_ids, lex_cells) * n_facets_per_cell + vtk_facets
         grid.cell_data["Facet status (0: full, 1: cut, 2: empty)"][vtk_cells] = status
         active_facets = np.append(active_facets, vtk_cells)
 
@@ -569,8 +578,6 @@ def unfitted_domain_facets_to_PyVista(
     lex_facets = lex_vtk_mask[vtk_facets]
     facets_grid.cell_data["Lexicographical local facets ids"] = lex_facets
 
-    is_cpp = isinstance(domain, (UnfittedDomain_2D, UnfittedDomain_3D))
-
     if not is_cpp:
         _append_DOLFINx_facets_ids(facets_grid, dim)
 
-- 
2.43.0


From f605c22d6f56f0cceb0ca460157f4e3d117e0ae8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:52:30 +0000
Subject: [PATCH 60/66] fix: loggers were lost when a kernel did not compile

---
 python/qugar/dolfinx/jit.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/qugar/dolfinx/jit.py b/python/qugar/dolfinx/jit.py
index abeb484..583a4b9 100644
--- a/python/qugar/dolfinx/jit.py
+++ b/python/qugar/dolfinx/jit.py
@@ -174,8 +174,13 @@ def _compile_objects(
     # since CFFI logs into root logger
     old_handlers = root_logger.handlers.copy()
     root_logger.handlers = [logging.StreamHandler(f)]
-    with redirect_stdout(f), _deduped_ldshared():
-        ffibuilder.compile(tmpdir=cache_dir, verbose=True, debug=cffi_debug)
+    try:
+        with redirect_stdout(f), _deduped_ldshared():
+            ffibuilder.compile(tmpdir=cache_dir, verbose=True, debug=cffi_debug)
+    finally:
+        # Copy back the original handlers (in case someone is logging into
+        # root logger and has custom handlers)
+        root_logger.handlers = old_handlers
     s = f.getvalue()
     if cffi_verbose:
         print(s)
@@ -189,10 +194,6 @@ def _compile_objects(
     fd.write(s)
     fd.close()
 
-    # Copy back the original handlers (in case someone is logging into
-    # root logger and has custom handlers)
-    root_logger.handlers = old_handlers
-
     return code_body, itg_data
 
 
-- 
2.43.0


From 1fbfcea15dc979f4bdbab1a290556478b58f867e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:52:30 +0000
Subject: [PATCH 61/66] fix: linker commands of kernels lost repeated words,
 and those set by the user

---
 python/qugar/dolfinx/jit.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/qugar/dolfinx/jit.py b/python/qugar/dolfinx/jit.py
index 583a4b9..fd9066c 100644
--- a/python/qugar/dolfinx/jit.py
+++ b/python/qugar/dolfinx/jit.py
@@ -72,14 +72,19 @@ def _deduped_ldshared():
     ``-Wl,-rpath,$PREFIX/lib`` and ``-L$PREFIX/lib`` *twice*, which makes
     every cffi kernel link emit ``ld: warning: duplicate -rpath ... ignored``.
     distutils honors the ``LDSHARED`` env var as a full override of
-    ``sysconfig.LDSHARED``, so we feed it the same flags with duplicates
-    removed (order preserved) just for the duration of the cffi compile.
+    ``sysconfig.LDSHARED``, so we feed it the same flags with the
+    duplicates of those removed (order preserved) just for the duration
+    of the cffi compile. Other words may be repeated on purpose (as in
+    ``-arch arm64 -arch x86_64``), and a value set by the user prevails.
     """
     saved = os.environ.get("LDSHARED")
-    raw = sysconfig.get_config_var("LDSHARED") or ""
+    raw = saved or sysconfig.get_config_var("LDSHARED") or ""
     if raw:
-        deduped = " ".join(dict.fromkeys(raw.split()))
-        os.environ["LDSHARED"] = deduped
+        deduped: list[str] = []
+        for flag in raw.split():
+            if flag not in deduped or not flag.startswith(("-Wl,-rpath,", "-L")):
+                deduped.append(flag)
+        os.environ["LDSHARED"] = " ".join(deduped)
     try:
         yield
     finally:
-- 
2.43.0


From d6f9f3d2c76098bf96ff0371e97d51fbc779ad03 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:52:30 +0000
Subject: [PATCH 62/66] fix: kernels of other versions of the code generation
 were taken from the cache

---
 python/qugar/dolfinx/jit.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/jit.py b/python/qugar/dolfinx/jit.py
index fd9066c..07237df 100644
--- a/python/qugar/dolfinx/jit.py
+++ b/python/qugar/dolfinx/jit.py
@@ -25,6 +25,8 @@ from qugar.utils import has_FEniCSx
 if not has_FEniCSx:
     raise ValueError("FEniCSx installation not found is required.")
 
+import functools
+import hashlib
 import io
 import logging
 import os
@@ -64,6 +66,17 @@ from qugar.dolfinx.compiler import compile_ufl_objects
 from qugar.dolfinx.integral_data import IntegralData
 
 
+@functools.cache
+def _codegen_signature() -> str:
+    """Signature of the sources that write the code of the kernels.
+
+    Returns:
+        str: Signature of the modules of this package.
+    """
+    sources = sorted(Path(__file__).resolve().parent.glob("*.py"))
+    return hashlib.sha1(b"".join(src.read_bytes() for src in sources)).hexdigest()
+
+
 @contextmanager
 def _deduped_ldshared():
     """Temporarily override ``LDSHARED`` with a deduplicated token stream.
@@ -241,8 +254,12 @@ def compile_forms(
     p = ffcx.options.get_options(options)
 
     # This options is introduced just for modifying the module name
-    # respect to the non-custom version.
-    p["custom"] = True
+    # respect to the non-custom version. A cached kernel is only valid for
+    # the code generation that wrote it (that sets the layout of the custom
+    # coefficients), and for the tabulation library it was linked to, that
+    # has to be there (and up to date) also when the kernel is cached.
+    shim_dir, _ = _ensure_shim_built()
+    p["custom"] = f"{_codegen_signature()}:{shim_dir}"
     module_name = "libffcx_forms_" + ffcx.naming.compute_signature(
         forms,  # type: ignore
         _compute_option_signature(p) + _compilation_signature(cffi_extra_compile_args, cffi_debug),
-- 
2.43.0


From 1b0f079e7fa3cc3d04a954136ec750b78cc4dbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:56 +0000
Subject: [PATCH 63/66] fix: linear problems took PETSc options of problems
 that were gone

---
 python/qugar/dolfinx/petsc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/petsc.py b/python/qugar/dolfinx/petsc.py
index 9596094..277e32c 100644
--- a/python/qugar/dolfinx/petsc.py
+++ b/python/qugar/dolfinx/petsc.py
@@ -22,6 +22,7 @@
 built on top of unfitted domains.
 """
 
+import itertools
 import typing
 
 from petsc4py import PETSc
@@ -46,6 +47,8 @@ from dolfinx.la.petsc import create_vector_wrap as create_petsc_vector_wrap
 
 from qugar.dolfinx import CustomForm, form_custom
 
+_problem_numbers = itertools.count()
+
 
 def _pack_coefficients(
     form: CustomForm | list[CustomForm],
@@ -214,8 +217,9 @@ class LinearProblem(dolfinx.fem.petsc.LinearProblem):
         self._solver = PETSc.KSP().create(self._u.function_space.mesh.comm)
         self._solver.setOperators(self._A)
 
-        # Give PETSc solver options a unique prefix
-        problem_prefix = f"dolfinx_solve_{id(self)}"
+        # Give PETSc solver options a unique prefix (the options stay in
+        # the database when the problem is gone, and ids are reused).
+        problem_prefix = f"dolfinx_solve_{next(_problem_numbers)}_"
         self._solver.setOptionsPrefix(problem_prefix)
 
         # Set PETSc options
-- 
2.43.0


From cf644edb355404c5cec152ae71c6a384d72dd386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:55 +0000
Subject: [PATCH 64/66] fix: processes other than the first one mixed up the
 cells of meshes with all their cells active

---
 python/qugar/mesh/mesh.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index 43a7a78..2c0ebed 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -362,8 +362,13 @@ class Mesh(dolfinx.mesh.Mesh):
         # TODO: to manage active cells for the case of
         # distributed meshes.
 
-        if active_cells is not None and active_cells.size == conn.shape[0]:
-            active_cells = None
+        if active_cells is not None:
+            all_active = active_cells.size == conn.shape[0]
+            if comm.size > 1:
+                # Only rank 0 has all the cells.
+                all_active = comm.bcast(all_active, root=0)
+            if all_active:
+                active_cells = None
         self._original_active_cells = active_cells
 
         if comm.rank == 0:
-- 
2.43.0


From 364bd4a2c25952c7acd157ef1fde236559f20ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:55 +0000
Subject: [PATCH 65/66] fix: processes other than the first one did not know
 which nodes were merged

---
 python/qugar/mesh/mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index 2c0ebed..1759f13 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -393,6 +393,10 @@ class Mesh(dolfinx.mesh.Mesh):
             n_nodes_per_cell = cmap.dim
             conn = np.empty((0, n_nodes_per_cell), dtype=np.int64, order="C")
 
+        if merge_nodes and comm.size > 1:
+            # Nodes are only merged in rank 0.
+            self._merged_nodes_map = comm.bcast(self._merged_nodes_map, root=0)
+
         if comm.size > 1:
             partitioner = dlf_cpp.mesh.create_cell_partitioner(ghost_mode)
         else:
-- 
2.43.0


From fe8ede3a9f1d637d6abbc73515551ad18e584d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:45 +0000
Subject: [PATCH 66/66] fix: reparameterizations had all the cells in every
 process

---
 python/qugar/reparam/reparam.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/python/qugar/reparam/reparam.py b/python/qugar/reparam/reparam.py
index cc0d035..94ea8c2 100644
--- a/python/qugar/reparam/reparam.py
+++ b/python/qugar/reparam/reparam.py
@@ -166,7 +166,11 @@ class UnfDomainReparamMesh:
         # In DOLFINx 0.10.0 the third and fourth positional arguments of
         # ``create_mesh`` swapped: the signature is now
         # ``create_mesh(comm, cells, e, x, partitioner=None, ...)``.
-        return dlf_mesh.create_mesh(comm, conn.astype(np.int64), domain, points, partitioner)
+        conn = conn.astype(np.int64)
+        if comm.size > 1:
+            # The ids of the nodes are global.
+            conn += comm.exscan(points.shape[0]) or 0
+        return dlf_mesh.create_mesh(comm, conn, domain, points, partitioner)
 
 
 def create_reparam_mesh(
@@ -190,7 +194,14 @@ def create_reparam_mesh(
     algo = cpp.create_reparameterization_levelset if levelset else cpp.create_reparameterization
     n_pts_dir = degree + 1
     merge_points = False
-    reparam_cpp = algo(unf_domain.cpp_unf_domain_object, n_pts_dir, merge_points)
+    domain = unf_domain.cpp_unf_domain_object
+    mesh = unf_domain.mesh
+    if mesh.comm.size > 1:
+        # Each process reparameterizes its own cells.
+        cells = mesh.get_all_original_cell_ids()
+        reparam_cpp = algo(domain, cells, n_pts_dir, merge_points)
+    else:
+        reparam_cpp = algo(domain, n_pts_dir, merge_points)
     return UnfDomainReparamMesh(unf_domain, reparam_cpp)
 
 
-- 
2.43.0

