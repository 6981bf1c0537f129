From 8dbf6deb07dda734fe4d6a3423582672b3ccf0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:40 +0000
Subject: [PATCH 01/25] fix: BandMatrix::operator* multiplied by the transposed
 (or a garbled) matrix

Bands are stored by column, but the product indexed them by row, so it was
only right for symmetric matrices.
---
 src/include/BandMatrix.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/BandMatrix.hpp b/src/include/BandMatrix.hpp
index 2a4d9ec..db65499 100644
--- a/src/include/BandMatrix.hpp
+++ b/src/include/BandMatrix.hpp
@@ -68,9 +68,9 @@ class BandMatrix {
     util::remove_cvref_t<Vec> operator*(const Vec& x) const {
         util::remove_cvref_t<Vec> xx(x.size());
         for (size_type i = 0; i < x.size(); ++i) {
-            for (size_type j = p_ > i ? p_ - i : 0, k = i > p_ ? i - p_ : 0;
-                 j < std::min(p_ + q_ + 1, n_ + p_ - i); ++j, ++k) {
-                xx[i] += bands_(i, j) * x[k];
+            for (size_type j = i > p_ ? i - p_ : 0;
+                 j < std::min(i + q_ + 1, n_); ++j) {
+                xx[i] += operator()(i, j) * x[j];
             }
         }
         return xx;
-- 
2.43.0


From 87e04430d542cdb0b01b52c900ca55a657088856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:40 +0000
Subject: [PATCH 02/25] fix: BandLU::compute moved from an lvalue matrix

std::forward<matrix_type> casts lvalues to rvalues, so the matrix passed by
the caller was emptied.
---
 src/include/BandLU.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/BandLU.hpp b/src/include/BandLU.hpp
index 726faae..046fb73 100644
--- a/src/include/BandLU.hpp
+++ b/src/include/BandLU.hpp
@@ -34,7 +34,7 @@ class BandLUBase : public util::CRTP<Solver<Matrix>> {
             std::is_same<util::remove_cvref_t<Mat_>, matrix_type>::value,
             "Matrix type mismatch");
         if (!is_computed_) {
-            lu_store_ = std::forward<matrix_type>(mat);
+            lu_store_ = std::forward<Mat_>(mat);
             this->cast().compute_impl();
             is_computed_ = true;
         }
-- 
2.43.0


From 5ae5ba55a0a9685dca022b16f02bd54ceaa3bc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:40 +0000
Subject: [PATCH 03/25] fix: const overload of Mesh::end(dim, indices) did not
 compile

---
 src/include/Mesh.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/Mesh.hpp b/src/include/Mesh.hpp
index b2b8ffb..e1aafe9 100644
--- a/src/include/Mesh.hpp
+++ b/src/include/Mesh.hpp
@@ -365,8 +365,9 @@ class Mesh {
                                       index_type indices) const {
         indices[dim_ind] = dimension_.dim_size(dim_ind);
         return skip_iterator<const val_type>(
-            storage_.data() + indexing(indices),
-            dimension_.dim_acc_size(dim - dim_ind - 1));
+            storage_.data() + dimension_.indexing(indices),
+            static_cast<typename skip_iterator<val_type>::difference_type>(
+                dimension_.dim_acc_size(dim - dim_ind - 1)));
     }
 
     index_type iter_indices(const_iterator iter) const {
-- 
2.43.0


From 5f4f9663d4bc1cc475c27689f1d4eb3675ce3274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:40 +0000
Subject: [PATCH 04/25] fix: comparison and operator-> of mesh line iterators
 did not compile

operator< subtracts const iterators but operator- was not const, and
operator-> returned a reference initialised from a pointer.
---
 src/include/Mesh.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/include/Mesh.hpp b/src/include/Mesh.hpp
index e1aafe9..80f924a 100644
--- a/src/include/Mesh.hpp
+++ b/src/include/Mesh.hpp
@@ -160,8 +160,8 @@ class Mesh {
 
         // forward iterator requirement
 
-        reference operator*() { return *ptr_; }
-        reference operator->() { return ptr_; }
+        reference operator*() const { return *ptr_; }
+        pointer operator->() const { return ptr_; }
 
         bool operator==(const skip_iterator& other) const {
             return this->ptr_ == other.ptr_ &&
@@ -199,7 +199,7 @@ class Mesh {
             ptr_ += n * step_length_;
             return *this;
         }
-        skip_iterator operator+(difference_type n) {
+        skip_iterator operator+(difference_type n) const {
             skip_iterator tmp(*this);
             return tmp += n;
         }
@@ -211,16 +211,16 @@ class Mesh {
             ptr_ -= n * step_length_;
             return *this;
         }
-        skip_iterator operator-(difference_type n) {
+        skip_iterator operator-(difference_type n) const {
             skip_iterator tmp(*this);
             return tmp -= n;
         }
 
-        difference_type operator-(skip_iterator other) {
+        difference_type operator-(skip_iterator other) const {
             return (ptr_ - other.ptr_) / step_length_;
         }
 
-        reference operator[](difference_type n) {
+        reference operator[](difference_type n) const {
             return *(ptr_ + n * step_length_);
         }
 
-- 
2.43.0


From fa9540f622c1207d9b73e3a6a3435ca0f8ced7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:40 +0000
Subject: [PATCH 05/25] fix: default range of periodic
 InterpolationFunctionTemplate1D

Without dummy point the period spans f_length intervals, as
InterpolationFunction1D already assumes.
---
 src/include/InterpolationTemplate.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 843bc0b..6f0ba05 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -592,7 +592,13 @@ class InterpolationFunctionTemplate1D
         : InterpolationFunctionTemplate1D(
               std::make_pair(
                   typename base::coord_type{},
-                  static_cast<typename base::coord_type>(f_length - 1)),
+                  static_cast<typename base::coord_type>(f_length
+#ifdef INTP_PERIODIC_NO_DUMMY_POINT
+                                                         - (periodicity ? 0 : 1)
+#else
+                                                         - 1
+#endif
+                                                             )),
               f_length,
               periodicity) {}
 
-- 
2.43.0


From 5173991226e21e961c6df9ce859e2eff73e98d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:56 +0000
Subject: [PATCH 06/25] fix: knot vectors and range of even order splines

Even order periodic knot vectors carried a surplus knot, so that the right end
of the period was taken as the start of one more segment (out of bounds read in
cell layout) and evaluation proxies used wrong strides.  The range of even order
aperiodic splines stopped one knot short, so that at() refused valid
coordinates.  Both parities now have 2 * order + 1 more knots than control
points in periodic dimensions, as the constructor of BSpline requires.
---
 src/include/BSpline.hpp       | 2 +-
 src/include/Interpolation.hpp | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 3b9831b..aa539c9 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -223,7 +223,7 @@ class BSpline {
         knots_[dim_ind] = std::forward<C>(_knots);
         range_[dim_ind].first = knots_[dim_ind][order];
         range_[dim_ind].second =
-            knots_[dim_ind][knots_[dim_ind].size() - order - (2 - order % 2)];
+            knots_[dim_ind][knots_[dim_ind].size() - order - 1];
     }
 
 #ifdef INTP_CELL_LAYOUT
diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 41c1a22..4820a80 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -335,15 +335,17 @@ class InterpolationFunction {
         dx_[dim_ind] =
             (x_range.second - x_range.first) / static_cast<coord_type>(n - 1);
 
-        const size_t extra = periodic ? 2 * order + (1 - order % 2) : order + 1;
+        const size_t extra = periodic ? 2 * order : order + 1;
 
         std::vector<coord_type> xs(n + extra, x_range.first);
 
         if (periodic) {
+            // knots are shifted by half of grid size if spline order is even
+            const size_t shift = extra + (1 - order % 2);
             for (size_type i = 0; i < xs.size(); ++i) {
                 xs[i] = x_range.first +
                         (static_cast<coord_type>(i) -
-                         coord_type{.5} * static_cast<coord_type>(extra)) *
+                         coord_type{.5} * static_cast<coord_type>(shift)) *
                             dx_[dim_ind];
             }
         } else {
@@ -392,7 +394,7 @@ class InterpolationFunction {
         (void)mesh_dimension;
 #endif
         typename spline_type::KnotContainer xs(
-            periodic ? n + 2 * order + (1 - order % 2) : n + order + 1);
+            periodic ? n + 2 * order : n + order + 1);
 
         auto& input_coord = input_coords[dim_ind];
         input_coord.reserve(n);
-- 
2.43.0


From 724325cc7152f86679dba10aea7b0cc87d36af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:56 +0000
Subject: [PATCH 07/25] fix: fold left end of period shifted by negative
 periods onto left end

A coordinate a whole number of periods below the left end was folded to the
right end of the period, where the one-sided limit from the last segment was
evaluated instead of that from the first.
---
 src/include/BSpline.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index aa539c9..eb922e2 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -131,8 +131,8 @@ class BSpline {
             const knot_type period =
                 range(dim_ind).second - range(dim_ind).first;
             x = range(dim_ind).first +
-                std::fmod(x - range(dim_ind).first, period) +
-                (x < range(dim_ind).first ? period : knot_type{});
+                std::fmod(x - range(dim_ind).first, period);
+            if (x < range(dim_ind).first) { x += period; }
         }
 #ifdef INTP_TRACE
         if ((*iter > x || *(iter + 1) < x) && x >= range(dim_ind).first &&
-- 
2.43.0


From 1f9e6ee248679367708cfaf3e30184adbc08a98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:56 +0000
Subject: [PATCH 08/25] fix: copying an interpolation template dropped its
 solvers before C++17

---
 src/include/InterpolationTemplate.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 6f0ba05..c8368d2 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -221,10 +221,20 @@ class InterpolationFunctionTemplate {
             return *this;
         }
 
-        // Copy constructor is required by aggregate initialization, but never
-        // invoked in this code since the content of this union is never
-        // switched.
-        EitherSolver(const EitherSolver&) {}
+        // Copy constructor is required by aggregate initialization, and by
+        // copying the template.
+        EitherSolver(const EitherSolver& other)
+            : is_active_(other.is_active_), is_periodic_(other.is_periodic_) {
+            if (is_active_) {
+                if (is_periodic_) {
+                    new (&solver_periodic)
+                        extended_solver_type(other.solver_periodic);
+                } else {
+                    new (&solver_aperiodic)
+                        base_solver_type(other.solver_aperiodic);
+                }
+            }
+        }
         // Destructor needed and it invokes either member's destructor according
         // to the tag "is_periodic";
         ~EitherSolver() {
-- 
2.43.0


From 9027a36445759dfa06705d5aa56949260d8de78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:23 +0000
Subject: [PATCH 09/25] fix: thread pool could hang forever in its destructor

The termination flag was a plain bool set without the mutex, so a worker between
checking it and going to sleep missed the only notification.
---
 src/include/DedicatedThreadPool.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index fb6e9df..f34c108 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -1,6 +1,7 @@
 #ifndef INTP_THREAD_POOL
 #define INTP_THREAD_POOL
 
+#include <atomic>   // atomic
 #include <future>   //unique_lock, packaged_task
 #include <mutex>    // mutex
 #include <queue>    // deque
@@ -105,8 +106,7 @@ class DedicatedThreadPool {
 #endif
         } catch (...) {  // in this case dtor is not called, so threads
                          // termination should be proper handled here
-            should_terminate = true;
-            cv.notify_all();
+            terminate();
             throw;
         }
     }
@@ -115,8 +115,7 @@ class DedicatedThreadPool {
     using return_type = T;
 
     ~DedicatedThreadPool() {
-        should_terminate = true;
-        cv.notify_all();
+        terminate();
 
 #ifdef INTP_DEBUG
         std::cout << "\n[DEBUG] The thread pool has " << thread_num()
@@ -204,6 +203,20 @@ class DedicatedThreadPool {
         }
     };
 
+    /**
+     * @brief Tell all threads to stop. The flag is set with the mutex locked,
+     * or a thread which has just checked it but is not waiting yet would miss
+     * the notification.
+     *
+     */
+    void terminate() {
+        {
+            lock_type lk(main_queue_mutex);
+            should_terminate = true;
+        }
+        cv.notify_all();
+    }
+
     bool try_pop_from_main(task_type& task) {
         {
             lock_type lk(main_queue_mutex);
@@ -259,7 +272,8 @@ class DedicatedThreadPool {
 #ifdef INTP_DEBUG
     size_t submitted{};
 #endif
-    bool should_terminate = false;  // Tells threads to stop looking for tasks
+    // Tells threads to stop looking for tasks
+    std::atomic<bool> should_terminate{false};
     std::mutex main_queue_mutex;    // Protects main task queue
     std::condition_variable cv;     // Signals for thread sleep/awake
     std::vector<std::thread> threads;  // Thread container
-- 
2.43.0


From 6e5220a38d31f406fb67ca01f3acf61a510286fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:45 +0000
Subject: [PATCH 10/25] fix: undefined references to static members before
 C++17 without optimization

---
 src/include/BSpline.hpp       | 10 ++++++++++
 src/include/Interpolation.hpp | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index eb922e2..e789f06 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -759,6 +759,16 @@ class BSpline {
 #endif  // INTP_CELL_LAYOUT
 };
 
+#if __cplusplus < 201703L
+// static constexpr members are not implicitly inline before C++17
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename BSpline<T, D, O, U>::size_type BSpline<T, D, O, U>::dim;
+
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename BSpline<T, D, O, U>::size_type
+    BSpline<T, D, O, U>::order;
+#endif
+
 }  // namespace intp
 
 #endif
diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 4820a80..a18ee57 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -508,6 +508,16 @@ class InterpolationFunction {
 #endif  // INTP_CELL_LAYOUT
 };
 
+#if __cplusplus < 201703L
+// static constexpr members are not implicitly inline before C++17
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunction<T, D, O, U>::size_type InterpolationFunction<T, D, O, U>::dim;
+
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunction<T, D, O, U>::size_type
+    InterpolationFunction<T, D, O, U>::order;
+#endif
+
 template <std::size_t O = std::size_t{3},
           typename T = double,
           typename U = double>
-- 
2.43.0


From c24788296ceedbfffddda8b505201fe9146c5a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:25 +0000
Subject: [PATCH 11/25] fix: exception in parallel solving left tasks referring
 to dead locals

The first exception unwound the stack while other blocks queued in the pool
still referred to local variables.
---
 src/include/BSpline.hpp               |  1 +
 src/include/DedicatedThreadPool.hpp   | 20 ++++++++++++++++++++
 src/include/InterpolationTemplate.hpp |  1 +
 3 files changed, 22 insertions(+)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index e789f06..e71e459 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -740,6 +740,7 @@ class BSpline {
 
         auto& thread_pool = DedicatedThreadPool<void>::get_instance(8);
         std::vector<std::future<void>> res;
+        WaitFutures<void> wait_futures(res);
 
         for (size_type i = 0; i < block_num; ++i) {
             res.push_back(thread_pool.queue_task([=]() {
diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index f34c108..74b772d 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -7,6 +7,7 @@
 #include <queue>    // deque
 #include <thread>   // hardware_concurrency
 #include <utility>  // move
+#include <vector>
 
 #ifdef INTP_DEBUG
 #include <iostream>
@@ -14,6 +15,25 @@
 
 namespace intp {
 
+/**
+ * @brief Hold a ref of future vector, use RAII to ensure all of the tasks are
+ * done before leaving a scope the tasks refer to, even by an exception.
+ *
+ */
+template <typename T>
+struct WaitFutures {
+    std::vector<std::future<T>>& fs_;
+
+    WaitFutures(std::vector<std::future<T>>& fs) : fs_(fs) {}
+    WaitFutures(const WaitFutures&) = delete;
+    WaitFutures& operator=(const WaitFutures&) = delete;
+    ~WaitFutures() {
+        for (auto& f : fs_) {
+            if (f.valid()) { f.wait(); }
+        }
+    }
+};
+
 /**
  * @brief A thread pool managing a bunch of threads and a queue of tasks. It can
  * spawn a specified number of threads during construction and joins all the
diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index c8368d2..356f32e 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -563,6 +563,7 @@ class InterpolationFunctionTemplate {
 
             auto& thread_pool = DedicatedThreadPool<void>::get_instance(8);
             std::vector<std::future<void>> res;
+            WaitFutures<void> wait_futures(res);
 
             for (size_type i = 0; i < block_num; ++i) {
                 // use thread pool here may seem to be a bit overhead
-- 
2.43.0


From 8fd8ac0c3277fa7b76e613a45825ae4defed67aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:58 +0000
Subject: [PATCH 12/25] fix: order 0 interpolation on nonuniform aperiodic mesh
 read past end of coordinates

---
 src/include/Interpolation.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index a18ee57..a1cf95d 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -417,6 +417,18 @@ class InterpolationFunction {
                 xs[i] = xs[n + i - 1] - period;
                 xs[xs.size() - i - 1] = xs[xs.size() - i - n] + period;
             }
+        } else if (order == 0) {
+            // Internal knots of piecewise constant function are in the middle
+            // of data points, as in uniform case.
+
+            auto it = x_range.first;
+            input_coord.push_back(*it);
+            xs[0] = input_coord.front();
+            for (size_type i = 1; i < n; ++i) {
+                input_coord.push_back(*(++it));
+                xs[i] = (input_coord[i - 1] + input_coord[i]) / 2;
+            }
+            xs[n] = input_coord.back();
         } else {
             // In aperiodic case, the internal knots are moving average of
             // data points with windows size equal to spline order.
-- 
2.43.0


From c53610a914bb31f77160561ac15fd40e05b1bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:00 +0000
Subject: [PATCH 13/25] fix: coordinates given by single pass iterators

The number of coordinates was found by walking the iterators once, before they
were read.
---
 src/include/Interpolation.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index a1cf95d..6abae19 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -376,8 +376,11 @@ class InterpolationFunction {
         uniform_[dim_ind] = false;
         const auto periodic = periodicity(dim_ind);
 
-        const size_type n{static_cast<size_type>(
-            std::distance(x_range.first, x_range.second))};
+        // The x_range may be given by input iterators, which can not be
+        // multi-passed.
+        const typename spline_type::KnotContainer coords(x_range.first,
+                                                         x_range.second);
+        const size_type n = coords.size();
 #ifdef INTP_PERIODIC_NO_DUMMY_POINT
         INTP_ASSERT(n == mesh_dimension.dim_size(dim_ind) + (periodic ? 1 : 0),
                     std::string("Inconsistency between knot number and "
@@ -398,13 +401,11 @@ class InterpolationFunction {
 
         auto& input_coord = input_coords[dim_ind];
         input_coord.reserve(n);
-        // The x_range may be given by input iterators, which can not be
-        // multi-passed.
         if (periodic) {
             // In periodic case, the knots are data points, shifted by half
             // of local grid size if spline order is odd.
 
-            auto iter = x_range.first;
+            auto iter = coords.begin();
             input_coord.push_back(*iter);
             for (size_type i = order + 1; i < order + n; ++i) {
                 coord_type present = *(++iter);
@@ -421,7 +422,7 @@ class InterpolationFunction {
             // Internal knots of piecewise constant function are in the middle
             // of data points, as in uniform case.
 
-            auto it = x_range.first;
+            auto it = coords.begin();
             input_coord.push_back(*it);
             xs[0] = input_coord.front();
             for (size_type i = 1; i < n; ++i) {
@@ -433,7 +434,7 @@ class InterpolationFunction {
             // In aperiodic case, the internal knots are moving average of
             // data points with windows size equal to spline order.
 
-            auto it = x_range.first;
+            auto it = coords.begin();
             auto l_knot = *it;
             // fill leftmost *order+1* identical knots
             for (size_type i = 0; i < order + 1; ++i) { xs[i] = l_knot; }
-- 
2.43.0


From 6a2648c8a079d6d01309d681649a410162b98b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:50 +0000
Subject: [PATCH 14/25] fix: back substitution of small extended band matrices
 read outside the bands

---
 src/include/BandLU.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/BandLU.hpp b/src/include/BandLU.hpp
index 046fb73..930122e 100644
--- a/src/include/BandLU.hpp
+++ b/src/include/BandLU.hpp
@@ -249,7 +249,7 @@ class BandLU<ExtendedBandMatrix<Ts...>>
 
             // right side bands
             if (j > n - p - 1) {
-                for (size_type i = 0; i < j - q; ++i) {
+                for (size_type i = 0; i + q < j; ++i) {
                     iter[static_cast<ind_type>(i)] -=
                         lu_store_.side_bands_val(i, j) *
                         iter[static_cast<ind_type>(j)];
-- 
2.43.0


From d34c054cc4e60460e0ab75937ce682f65248eb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:17 +0000
Subject: [PATCH 15/25] fix: knot and control point numbers were checked only
 after being used

---
 src/include/BSpline.hpp | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index e71e459..53c4f3f 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -189,7 +189,11 @@ class BSpline {
     BSpline(DimArray<bool> periodicity,
             ControlPointContainer ctrl_pts,
             std::pair<InputIters, InputIters>... knot_iter_pairs)
-        : periodicity_(periodicity),
+        : periodicity_(check_knot_num(
+              periodicity,
+              ctrl_pts,
+              {static_cast<size_type>(std::distance(
+                  knot_iter_pairs.first, knot_iter_pairs.second))...})),
           knots_{
               KnotContainer(knot_iter_pairs.first, knot_iter_pairs.second)...},
 #ifdef INTP_CELL_LAYOUT
@@ -199,15 +203,7 @@ class BSpline {
 #endif
           range_{std::make_pair(
               (knot_iter_pairs.first)[order],
-              (knot_iter_pairs.second)[-static_cast<int>(order) - 1])...} {
-        for (size_type d = 0; d < dim; ++d) {
-            INTP_ASSERT(knots_[d].size() - ctrl_pts.dim_size(d) ==
-                            (periodicity_[d] ? 2 * order + 1 : order + 1),
-                        std::string("Inconsistency between knot number and "
-                                    "control point number at dimension ") +
-                            std::to_string(d));
-        }
-    }
+              (knot_iter_pairs.second)[-static_cast<int>(order) - 1])...} {}
 
     template <typename... InputIters>
     BSpline(ControlPointContainer ctrl_points,
@@ -648,6 +644,28 @@ class BSpline {
 
     // auxiliary methods
 
+    /**
+     * @brief Check the numbers of knots against control points, before either
+     * is used. Returns periodicity, such that it can be used in member
+     * initializer list.
+     *
+     */
+    static DimArray<bool> check_knot_num(DimArray<bool> periodicity,
+                                         const ControlPointContainer& ctrl_pts,
+                                         DimArray<size_type> knot_num) {
+        // not used without assertion
+        (void)ctrl_pts;
+        (void)knot_num;
+        for (size_type d = 0; d < dim; ++d) {
+            INTP_ASSERT(knot_num[d] - ctrl_pts.dim_size(d) ==
+                            (periodicity[d] ? 2 * order + 1 : order + 1),
+                        std::string("Inconsistency between knot number and "
+                                    "control point number at dimension ") +
+                            std::to_string(d));
+        }
+        return periodicity;
+    }
+
     /**
      * @brief Calculate base spline value of each dimension
      *
-- 
2.43.0


From 81f14ffc64b2552a7d5b7e4cd1f506252e70b1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:22 +0000
Subject: [PATCH 16/25] fix: position hint of far away coordinates overflowed
 the conversion to integer

---
 src/include/Interpolation.hpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 6abae19..bc687a3 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -283,13 +283,16 @@ class InterpolationFunction {
             uniform_[di]
                 ? std::min(
                       spline_.knots_num(di) - order - 2,
-                      static_cast<size_type>(std::ceil(std::max(
-                          coord_type{0.},
-                          (c[di] - range(di).first) / dx_[di] -
-                              (periodicity(di)
-                                   ? coord_type{1.}
-                                   : coord_type{.5} * static_cast<coord_type>(
-                                                          order + 1))))) +
+                      // keep it representable as an integer
+                      static_cast<size_type>(std::ceil(std::min(
+                          static_cast<coord_type>(spline_.knots_num(di)),
+                          std::max(coord_type{0.},
+                                   (c[di] - range(di).first) / dx_[di] -
+                                       (periodicity(di)
+                                            ? coord_type{1.}
+                                            : coord_type{.5} *
+                                                  static_cast<coord_type>(
+                                                      order + 1)))))) +
                           order)
                 : order)...};
     }
@@ -307,12 +310,16 @@ class InterpolationFunction {
             static_cast<coord_type>(c[di]),
             uniform_[di]
                 ? std::min(spline_.knots_num(di) - order - 2,
-                           static_cast<size_type>(std::ceil(std::max(
-                               0., (c[di] - range(di).first) / dx_[di] -
+                           // keep it representable as an integer
+                           static_cast<size_type>(std::ceil(std::min(
+                               static_cast<double>(spline_.knots_num(di)),
+                               std::max(
+                                   0.,
+                                   (c[di] - range(di).first) / dx_[di] -
                                        (periodicity(di)
                                             ? 1.
                                             : .5 * static_cast<coord_type>(
-                                                       order + 1))))) +
+                                                       order + 1)))))) +
                                order)
                 : order,
             static_cast<size_type>(d[di]))...});
-- 
2.43.0


From 51adbab7cdd15cc3157e6b2cdd0e395f923b8630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:05 +0000
Subject: [PATCH 17/25] fix: aligned-allocator.hpp compiles when included on
 its own

---
 src/include/aligned-allocator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/aligned-allocator.hpp b/src/include/aligned-allocator.hpp
index 3330666..ebe9987 100644
--- a/src/include/aligned-allocator.hpp
+++ b/src/include/aligned-allocator.hpp
@@ -14,6 +14,10 @@
 
 #include <cstddef>
 #include <cstdlib>
+#include <memory>
+#include <new>
+#include <type_traits>
+#include <utility>
 
 namespace intp {
 
-- 
2.43.0


From c670f080df17f2051e8a321593ebed7021fabf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:24 +0000
Subject: [PATCH 18/25] fix: dispatch_indexed can be called (index pack has the
 sequence's type)

---
 src/include/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/util.hpp b/src/include/util.hpp
index c1abbf8..8f49562 100644
--- a/src/include/util.hpp
+++ b/src/include/util.hpp
@@ -47,7 +47,7 @@ constexpr typename std::enable_if<std::is_unsigned<T2>::value, T1>::type pow(
     return exp == 0 ? T1{1} : base * pow(base, exp - 1);
 }
 
-template <typename Func, typename... Args, unsigned... indices>
+template <typename Func, typename... Args, size_t... indices>
 void dispatch_indexed_helper(index_sequence<indices...>,
                              Func& func,
                              Args&&... args) {
-- 
2.43.0


From 6fb9b233f1d4dc8b1cdb65514043534c5d9d3934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:24 +0000
Subject: [PATCH 19/25] fix: AlignedAllocator refuses requests whose byte count
 overflows

---
 src/include/aligned-allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/aligned-allocator.hpp b/src/include/aligned-allocator.hpp
index ebe9987..c60ac48 100644
--- a/src/include/aligned-allocator.hpp
+++ b/src/include/aligned-allocator.hpp
@@ -101,6 +101,7 @@ class AlignedAllocator {
     pointer allocate(
         size_type n,
         typename AlignedAllocator<void, Align>::const_pointer = nullptr) {
+        if (n > max_size()) { throw std::bad_alloc(); }
         const size_type alignment = static_cast<size_type>(Align);
         void* ptr = detail::allocate_aligned_memory(alignment, n * sizeof(T));
         if (ptr == nullptr) { throw std::bad_alloc(); }
@@ -155,6 +156,7 @@ class AlignedAllocator<const T, Align> {
     pointer allocate(
         size_type n,
         typename AlignedAllocator<void, Align>::const_pointer = 0) {
+        if (n > max_size()) { throw std::bad_alloc(); }
         const size_type alignment = static_cast<size_type>(Align);
         void* ptr = detail::allocate_aligned_memory(alignment, n * sizeof(T));
         if (ptr == nullptr) { throw std::bad_alloc(); }
-- 
2.43.0


From e273be243060b744b511446aae26c93fae5c8e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:54 +0000
Subject: [PATCH 20/25] fix: derivative pairs and eval_proxy take integer
 coordinates like the other call forms

---
 src/include/Interpolation.hpp         | 6 ++++--
 src/include/InterpolationTemplate.hpp | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index bc687a3..9fd56bf 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -199,7 +199,8 @@ class InterpolationFunction {
      */
     template <typename... CoordDeriOrderPair>
     val_type derivative(CoordDeriOrderPair... coord_deriOrder_pair) const {
-        return derivative(DimArray<coord_type>{coord_deriOrder_pair.first...},
+        return derivative(DimArray<coord_type>{static_cast<coord_type>(
+                              coord_deriOrder_pair.first)...},
                           DimArray<size_type>{static_cast<size_type>(
                               coord_deriOrder_pair.second)...});
     }
@@ -238,7 +239,8 @@ class InterpolationFunction {
     template <typename... CoordDeriOrderPair>
     val_type derivative_at(CoordDeriOrderPair... coord_deriOrder_pair) const {
         return derivative_at(
-            DimArray<coord_type>{coord_deriOrder_pair.first...},
+            DimArray<coord_type>{
+                static_cast<coord_type>(coord_deriOrder_pair.first)...},
             DimArray<size_type>{
                 static_cast<size_type>(coord_deriOrder_pair.second)...});
     }
diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 356f32e..f7eeeea 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -154,7 +154,8 @@ class InterpolationFunctionTemplate {
     std::function<val_type(const function_type&)>
 #endif
     eval_proxy(Coords... x) const {
-        return base_.eval_proxy(DimArray<coord_type>{x...});
+        return base_.eval_proxy(
+            DimArray<coord_type>{static_cast<coord_type>(x)...});
     }
 
 #if __cplusplus >= 201402L
-- 
2.43.0


From 482d49763001a98a9476caa4e0d131e7d8fa1541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:32 +0000
Subject: [PATCH 21/25] fix: accept ranges with ends of different types in the
 1D template constructors

---
 src/include/InterpolationTemplate.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index f7eeeea..28ff629 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -89,9 +89,12 @@ class InterpolationFunctionTemplate {
     InterpolationFunctionTemplate(bool periodicity,
                                   size_type f_length,
                                   std::pair<C1, C2> x_range)
-        : InterpolationFunctionTemplate({periodicity},
-                                        MeshDim{f_length},
-                                        x_range) {
+        : InterpolationFunctionTemplate(
+              {periodicity},
+              MeshDim{f_length},
+              static_cast<std::pair<typename std::common_type<C1, C2>::type,
+                                    typename std::common_type<C1, C2>::type>>(
+                  x_range)) {
         static_assert(
             dim == size_type{1},
             "You can only use this overload of constructor in 1D case.");
-- 
2.43.0


From dc7ede00fa8b2913367cb5cf78a5fd15b4df407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:01 +0000
Subject: [PATCH 22/25] fix: default constructing a band LU solver allocates,
 so it may throw

BandLUBase() was noexcept, but the default constructed extended band
matrix it holds allocates: running out of memory while building a
template with a periodic axis terminated the program.
---
 src/include/BandLU.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/BandLU.hpp b/src/include/BandLU.hpp
index 930122e..5826454 100644
--- a/src/include/BandLU.hpp
+++ b/src/include/BandLU.hpp
@@ -17,7 +17,7 @@ class BandLUBase : public util::CRTP<Solver<Matrix>> {
    public:
     using matrix_type = Matrix;
 
-    BandLUBase() noexcept : is_computed_(false) {}
+    BandLUBase() : is_computed_(false) {}
 
     template <typename Mat_>
     BandLUBase(Mat_&& mat) : lu_store_(std::forward<Mat_>(mat)) {
-- 
2.43.0


From ea56159594d76169a048e4ba412815252a1056c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:01 +0000
Subject: [PATCH 23/25] fix: mark the solver of a template active only once it
 is constructed

Before C++17, if constructing the union member threw, the destructor
destroyed a member that was never constructed.
---
 src/include/InterpolationTemplate.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 28ff629..a553539 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -214,13 +214,14 @@ class InterpolationFunctionTemplate {
                 throw std::runtime_error("Can not switch solver type.");
             }
 
-            is_active_ = true;
             is_periodic_ = is_periodic;
             if (is_periodic_) {
                 new (&solver_periodic) extended_solver_type;
             } else {
                 new (&solver_aperiodic) base_solver_type;
             }
+            // only now is there a member to be destroyed
+            is_active_ = true;
 
             return *this;
         }
-- 
2.43.0


From aec9ba30ab0f33e5984a922418489f6c86a5890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:58 +0000
Subject: [PATCH 24/25] fix: reserve room for the futures before queueing tasks

If storing the future of a queued task ran out of memory, the future was
lost, and the construction returned while the task was still working on
its local variables.
---
 src/include/BSpline.hpp               | 2 ++
 src/include/InterpolationTemplate.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 53c4f3f..17a0885 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -759,6 +759,8 @@ class BSpline {
         auto& thread_pool = DedicatedThreadPool<void>::get_instance(8);
         std::vector<std::future<void>> res;
         WaitFutures<void> wait_futures(res);
+        // storing a future must not fail once its task is queued
+        res.reserve(block_num);
 
         for (size_type i = 0; i < block_num; ++i) {
             res.push_back(thread_pool.queue_task([=]() {
diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index a553539..c5edebd 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -569,6 +569,8 @@ class InterpolationFunctionTemplate {
             auto& thread_pool = DedicatedThreadPool<void>::get_instance(8);
             std::vector<std::future<void>> res;
             WaitFutures<void> wait_futures(res);
+            // storing a future must not fail once its task is queued
+            res.reserve(block_num);
 
             for (size_type i = 0; i < block_num; ++i) {
                 // use thread pool here may seem to be a bit overhead
-- 
2.43.0


From 9c12b58b28fc771f6453915b4e5767eea9f06433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:58 +0000
Subject: [PATCH 25/25] fix: do not leak a worker queue when the pool runs out
 of memory

emplace_back took a raw pointer, which was lost if the vector failed to
grow.
---
 src/include/DedicatedThreadPool.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index 74b772d..8d68dc7 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -113,6 +113,8 @@ class DedicatedThreadPool {
         : join_threads(threads) {
         auto t_num = num == 0 ? DEFAULT_THREAD_NUM : num;
         try {
+            // so that a queue is not lost when the vector can not grow
+            worker_queues.reserve(t_num);
             for (size_t i = 0; i < t_num; i++) {
                 worker_queues.emplace_back(new shared_working_queue{});
             }
-- 
2.43.0

