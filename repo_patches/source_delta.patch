From 86487c0db2c44bb780f66e4367a7b6dc79625d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:38 +0000
Subject: [PATCH 01/42] fix: soa_grid::swap() needs to exchange all dimensions
 and extents

---
 include/libflatarray/soa_grid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 65ce0d7..14fa180 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -120,11 +120,11 @@ public:
     {
         using std::swap;
         swap(my_dim_x, other.my_dim_x);
-        swap(my_dim_x, other.my_dim_x);
-        swap(my_dim_x, other.my_dim_x);
-        swap(my_extent_x, other.my_extent_x);
-        swap(my_extent_x, other.my_extent_x);
+        swap(my_dim_y, other.my_dim_y);
+        swap(my_dim_z, other.my_dim_z);
         swap(my_extent_x, other.my_extent_x);
+        swap(my_extent_y, other.my_extent_y);
+        swap(my_extent_z, other.my_extent_z);
         swap(my_byte_size, other.my_byte_size);
         swap(my_data, other.my_data);
         swap(cell_staging_buffer, other.cell_staging_buffer);
-- 
2.43.0


From 5e9270bd894ce1165910c4a2a73098289d3b662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:38 +0000
Subject: [PATCH 02/42] fix: copies of soa_grid need extents, empty grids need
 to be copyable

---
 include/libflatarray/soa_grid.hpp | 33 +++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 14fa180..b223627 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -88,19 +88,26 @@ public:
         my_dim_x(0),
         my_dim_y(0),
         my_dim_z(0),
+        my_extent_x(0),
+        my_extent_y(0),
+        my_extent_z(0),
+        my_byte_size(0),
         my_data(0)
     {
         resize(dim_x, dim_y, dim_z);
     }
 
     soa_grid(const soa_grid& other) :
-        my_dim_x(other.my_dim_x),
-        my_dim_y(other.my_dim_y),
-        my_dim_z(other.my_dim_z),
-        my_byte_size(other.byte_size()),
-        my_data(ALLOCATOR().allocate(other.byte_size()))
+        my_dim_x(0),
+        my_dim_y(0),
+        my_dim_z(0),
+        my_extent_x(0),
+        my_extent_y(0),
+        my_extent_z(0),
+        my_byte_size(0),
+        my_data(0)
     {
-        init();
+        resize(other.my_dim_x, other.my_dim_y, other.my_dim_z);
         copy_in(other);
     }
 
@@ -147,6 +154,11 @@ public:
         my_dim_x = new_dim_x;
         my_dim_y = new_dim_y;
         my_dim_z = new_dim_z;
+        if ((my_dim_x == 0) && (my_dim_y == 0) && (my_dim_z == 0)) {
+            // same state as after default construction
+            return;
+        }
+
         // we need callback() to round up our grid size
         callback(detail::flat_array::set_byte_size_functor<value_type>(
                      &my_byte_size,
@@ -463,10 +475,19 @@ private:
 
         callback(detail::flat_array::destroy_functor<value_type, USE_CUDA_FUNCTORS>(my_dim_x, my_dim_y, my_dim_z));
         ALLOCATOR().deallocate(my_data, byte_size());
+        my_data = 0;
+        my_byte_size = 0;
+        my_extent_x = 0;
+        my_extent_y = 0;
+        my_extent_z = 0;
     }
 
     void copy_in(const soa_grid& other)
     {
+        if (other.my_data == 0) {
+            return;
+        }
+
         other.callback(this, detail::flat_array::copy_functor<value_type>(my_dim_x, my_dim_y, my_dim_z));
     }
 
-- 
2.43.0


From 7cd4708f1023a86c58aaf428a05b0c092974eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:38 +0000
Subject: [PATCH 03/42] fix: soa_grid::resize() must not leave a broken grid
 behind if it throws

---
 include/libflatarray/soa_grid.hpp | 43 ++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index b223627..d839652 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -149,23 +149,39 @@ public:
             return;
         }
 
+        std::size_t new_byte_size = 0;
+        std::size_t new_extent_x = 0;
+        std::size_t new_extent_y = 0;
+        std::size_t new_extent_z = 0;
+        bool new_empty = (new_dim_x == 0) && (new_dim_y == 0) && (new_dim_z == 0);
+
+        if (!new_empty) {
+            // we need select_sizes() to round up our grid size. This
+            // will throw if the size is not supported, so we mustn't
+            // touch our current state before.
+            detail::flat_array::set_byte_size_functor<value_type> functor(
+                &new_byte_size,
+                &new_extent_x,
+                &new_extent_y,
+                &new_extent_z);
+            api_traits::select_sizes<value_type>()(my_data, functor, new_dim_x, new_dim_y, new_dim_z);
+        }
+
+        // leaves the grid in the same state as default construction,
+        // which is also what remains if the allocation fails:
         destroy_and_deallocate();
+        if (new_empty) {
+            return;
+        }
 
+        my_data = ALLOCATOR().allocate(new_byte_size);
         my_dim_x = new_dim_x;
         my_dim_y = new_dim_y;
         my_dim_z = new_dim_z;
-        if ((my_dim_x == 0) && (my_dim_y == 0) && (my_dim_z == 0)) {
-            // same state as after default construction
-            return;
-        }
-
-        // we need callback() to round up our grid size
-        callback(detail::flat_array::set_byte_size_functor<value_type>(
-                     &my_byte_size,
-                     &my_extent_x,
-                     &my_extent_y,
-                     &my_extent_z));
-        my_data = ALLOCATOR().allocate(byte_size());
+        my_extent_x = new_extent_x;
+        my_extent_y = new_extent_y;
+        my_extent_z = new_extent_z;
+        my_byte_size = new_byte_size;
         init();
     }
 
@@ -476,6 +492,9 @@ private:
         callback(detail::flat_array::destroy_functor<value_type, USE_CUDA_FUNCTORS>(my_dim_x, my_dim_y, my_dim_z));
         ALLOCATOR().deallocate(my_data, byte_size());
         my_data = 0;
+        my_dim_x = 0;
+        my_dim_y = 0;
+        my_dim_z = 0;
         my_byte_size = 0;
         my_extent_x = 0;
         my_extent_y = 0;
-- 
2.43.0


From 97b15f7547b6840110dcb3fbec070895024cf6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 04/42] fix: concurrent const access to soa_grid must not share
 a staging buffer

---
 include/libflatarray/soa_grid.hpp | 41 ++++++++++++++++---------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index d839652..a1e6cca 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -242,33 +242,36 @@ public:
     value_type get(std::size_t x, std::size_t y, std::size_t z) const
     {
         value_type cell;
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).resize(1);
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(&cell);
+        // const functions may run concurrently, hence no shared buffer here:
+        cell_staging_buffer_type buffer;
+        buffer.resize(1);
+        buffer.prep(&cell);
 
         callback(detail::flat_array::get_instance_functor<value_type, USE_CUDA_FUNCTORS>(
-                     const_cast<cell_staging_buffer_type&>(cell_staging_buffer).data(),
+                     buffer.data(),
                      x,
                      y,
                      z,
                      1));
 
-        cell_staging_buffer.save(&cell);
+        buffer.save(&cell);
         return cell;
     }
 
     void get(std::size_t x, std::size_t y, std::size_t z, value_type *cells, std::size_t count) const
     {
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).resize(count);
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(cells);
+        cell_staging_buffer_type buffer;
+        buffer.resize(count);
+        buffer.prep(cells);
 
         callback(detail::flat_array::get_instance_functor<value_type, USE_CUDA_FUNCTORS>(
-                     const_cast<cell_staging_buffer_type&>(cell_staging_buffer).data(),
+                     buffer.data(),
                      x,
                      y,
                      z,
                      count));
 
-        cell_staging_buffer.save(cells);
+        buffer.save(cells);
     }
 
     /**
@@ -338,18 +341,17 @@ public:
             detail::flat_array::simple_streak()
         };
 
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).resize(
-            count *
-            aggregated_member_size<value_type>::VALUE);
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
+        char_staging_buffer_type buffer;
+        buffer.resize(count * aggregated_member_size<value_type>::VALUE);
+        buffer.prep(target);
 
         callback(detail::flat_array::save_functor<value_type, detail::flat_array::simple_streak*, USE_CUDA_FUNCTORS>(
                      iter,
                      iter + 1,
-                     const_cast<char_staging_buffer_type&>(raw_staging_buffer).data(),
+                     buffer.data(),
                      count));
 
-        raw_staging_buffer.save(target);
+        buffer.save(target);
     }
 
     template<typename ITERATOR>
@@ -359,18 +361,17 @@ public:
         char *target,
         std::size_t count) const
     {
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).resize(
-            count *
-            aggregated_member_size<value_type>::VALUE);
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
+        char_staging_buffer_type buffer;
+        buffer.resize(count * aggregated_member_size<value_type>::VALUE);
+        buffer.prep(target);
 
         callback(detail::flat_array::save_functor<value_type, ITERATOR, USE_CUDA_FUNCTORS>(
                      begin,
                      end,
-                     const_cast<char_staging_buffer_type&>(raw_staging_buffer).data(),
+                     buffer.data(),
                      count));
 
-        raw_staging_buffer.save(target);
+        buffer.save(target);
     }
 
     std::size_t byte_size() const
-- 
2.43.0


From fffc6f3413f74ab90f6f1d2bbb161e204317b127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 05/42] fix: soa_vector must neither write beyond its capacity
 nor lose elements when growing

---
 include/libflatarray/soa_vector.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index 34877f1..b64bae8 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -112,6 +112,10 @@ public:
     __host__ __device__
     void reserve(std::size_t new_count)
     {
+        if (new_count <= capacity()) {
+            return;
+        }
+
         soa_grid<T, ALLOCATOR, USE_CUDA_FUNCTORS> new_grid(new_count, 1, 1);
         new_grid.resize(new_grid.extent_x(), 1, 1);
 
@@ -120,7 +124,11 @@ public:
             detail::flat_array::simple_streak()
         };
 
-        new_grid.load(iter + 0, iter + 1, grid.data(), grid.extent_x());
+        new_grid.load(
+            iter + 0,
+            iter + 1,
+            grid.data(),
+            grid.extent_x() * grid.extent_y() * grid.extent_z());
         swap(new_grid, grid);
     }
 
@@ -142,9 +150,10 @@ public:
     __host__ __device__
     void push_back(const T& element)
     {
-        if (count == grid.extent_x()) {
-            // fixme: make this configurable
-            reserve(static_cast<std::size_t>(count * 1.2));
+        if (count == capacity()) {
+            // reserve() will round up to the next available extent,
+            // hence no need to overallocate here.
+            reserve(count + 1);
         }
         set(count, element);
         ++count;
-- 
2.43.0


From c4ba7504707e22c4fe4196b7dbfe4a53bf61b0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 06/42] fix: failed assignment of soa_vector must not leave a
 stale element count

---
 include/libflatarray/soa_vector.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index b64bae8..96ae1fb 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -59,6 +59,25 @@ public:
         grid.broadcast(0, 0, 0, value, count);
     }
 
+    inline
+    __host__ __device__
+    soa_vector(const soa_vector& other) :
+        grid(other.grid),
+        count(other.count)
+    {}
+
+    inline
+    __host__ __device__
+    soa_vector& operator=(const soa_vector& other)
+    {
+        std::size_t new_count = other.count;
+        // if the grid can't be assigned then it'll be left empty
+        count = 0;
+        grid = other.grid;
+        count = new_count;
+        return *this;
+    }
+
     /**
      * Copies an element to the given index. We're intentionally not
      * using at() or operator[] to avoid mismatched expectations here:
-- 
2.43.0


From 029d938b3fda47118359d5bf8885b160ebbc8b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 07/42] fix: soa_array c-tor must reject more elements than its
 capacity

---
 include/libflatarray/soa_array.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 8a10c38..7fa6a9d 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -62,6 +62,11 @@ public:
     explicit soa_array(std::size_t elements = 0, const value_type& value = value_type()) :
         elements(elements)
     {
+#ifndef __CUDA_ARCH__
+        if (elements > SIZE) {
+            throw std::out_of_range("capacity exceeded");
+        }
+#endif
         construct_all_instances();
         for (soa_accessor<value_type, SIZE, 1, 1, 0> accessor(my_data, 0); accessor.index() < int(elements); accessor += 1) {
             accessor << value;
-- 
2.43.0


From 9ca2bbb9c8faafd88393c022dfdc4712f928695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 08/42] fix: copying and swapping soa_arrays must copy members,
 not bytes

---
 include/libflatarray/soa_array.hpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 7fa6a9d..2a54b4a 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -49,9 +49,6 @@ template<typename T, int MY_SIZE>
 class soa_array
 {
 public:
-    template<typename T2, int MY_SIZE2>
-    friend void swap(soa_array<T2, MY_SIZE2>& a, soa_array<T2, MY_SIZE2>& b);
-
     typedef T value_type;
     typedef soa_accessor<value_type, MY_SIZE, 1, 1, 0> iterator;
     static const std::size_t SIZE = MY_SIZE;
@@ -73,6 +70,16 @@ public:
         }
     }
 
+    // the template below won't suppress the implicit copy c-tor, which
+    // would copy just the bytes, not the members:
+    inline
+    __host__ __device__
+    soa_array(const soa_array& other)
+    {
+        construct_all_instances();
+        copy_in(other);
+    }
+
     template<int OTHER_SIZE>
     inline
     __host__ __device__
@@ -102,6 +109,14 @@ public:
 
     }
 
+    inline
+    __host__ __device__
+    soa_array& operator=(const soa_array& other)
+    {
+        copy_in(other);
+        return *this;
+    }
+
     template<int OTHER_SIZE>
     inline
     __host__ __device__
@@ -307,9 +322,9 @@ private:
 template<typename value_type, int size>
 void swap(soa_array<value_type, size>& a, soa_array<value_type, size>& b)
 {
-    using std::swap;
-    swap(a.elements, b.elements);
-    swap(a.my_data,  b.my_data);
+    const soa_array<value_type, size> c(a);
+    a = b;
+    b = c;
 }
 
 }
-- 
2.43.0


From 998e5b6a05bb912bdb8acd563c84f370011ba8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 09/42] fix: soa_array c-tor must check the capacity before it
 constructs members

---
 include/libflatarray/soa_array.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 2a54b4a..24f3467 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -85,6 +85,7 @@ public:
     __host__ __device__
     explicit soa_array(soa_array<value_type, OTHER_SIZE>& other)
     {
+        check_capacity(other.size());
         construct_all_instances();
         copy_in(other);
     }
@@ -95,6 +96,7 @@ public:
     __host__ __device__
     explicit soa_array(const soa_array<value_type, OTHER_SIZE>& other)
     {
+        check_capacity(other.size());
         construct_all_instances();
         copy_in(other);
     }
@@ -300,14 +302,21 @@ private:
         }
     }
 
-    template<int OTHER_SIZE>
     inline
     __host__ __device__
-    void copy_in(const soa_array<value_type, OTHER_SIZE>& other)
+    void check_capacity(std::size_t other_size) const
     {
-        if (other.size() > SIZE) {
+        if (other_size > SIZE) {
             throw std::out_of_range("insufficient capacity for assignment (other soa_array too large)");
         }
+    }
+
+    template<int OTHER_SIZE>
+    inline
+    __host__ __device__
+    void copy_in(const soa_array<value_type, OTHER_SIZE>& other)
+    {
+        check_capacity(other.size());
 
         at(0).copy_members(other[0], other.size());
         elements = other.size();
-- 
2.43.0


From 60b7a94ade64ff20943d184fa17f0af5322eb3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:12 +0000
Subject: [PATCH 10/42] fix: loop peeler must not run beyond the end of short
 ranges

---
 include/libflatarray/loop_peeler.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libflatarray/loop_peeler.hpp b/include/libflatarray/loop_peeler.hpp
index 0319c87..9060061 100644
--- a/include/libflatarray/loop_peeler.hpp
+++ b/include/libflatarray/loop_peeler.hpp
@@ -85,6 +85,9 @@
         COUNTER_TYPE next_stop = remainder ?                            \
             (X) + COUNTER_TYPE(lfa_local_short_vec::ARITY) - remainder : \
             (X);                                                        \
+        if (next_stop > COUNTER_TYPE(END_X)) {                          \
+            next_stop = COUNTER_TYPE(END_X);                            \
+        }                                                               \
         COUNTER_TYPE last_stop = (END_X) -                              \
             (END_X) % COUNTER_TYPE(lfa_local_short_vec::ARITY);         \
                                                                         \
@@ -109,6 +112,9 @@ void loop_peeler(COUNTER_TYPE1 *counter, const COUNTER_TYPE2& end, const LAMBDA&
     COUNTER_TYPE2 next_stop = remainder ?
         (*counter) + COUNTER_TYPE2(lfa_local_short_vec::ARITY) - remainder :
         (*counter);
+    if (next_stop > end) {
+        next_stop = end;
+    }
     COUNTER_TYPE2 last_stop = end - end % COUNTER_TYPE2(lfa_local_short_vec::ARITY);
 
     lambda(lfa_local_scalar(),    counter, next_stop);
-- 
2.43.0


From ad407a325d5cd9bf084ebb37f5a2738252bdf292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:26 +0000
Subject: [PATCH 11/42] fix: integer short_vec operator/= must truncate just
 like operator/

---
 .../detail/short_vec_avx512_int_16.hpp           |  2 +-
 .../detail/short_vec_avx512_int_32.hpp           |  4 ++--
 .../libflatarray/detail/short_vec_avx_int_16.hpp |  4 ++--
 .../libflatarray/detail/short_vec_avx_int_32.hpp |  8 ++++----
 .../libflatarray/detail/short_vec_avx_int_8.hpp  |  2 +-
 .../libflatarray/detail/short_vec_sse_int_16.hpp |  8 ++++----
 .../libflatarray/detail/short_vec_sse_int_32.hpp | 16 ++++++++--------
 .../libflatarray/detail/short_vec_sse_int_4.hpp  |  2 +-
 8 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_avx512_int_16.hpp b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
index 3c4c47b..abee972 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
@@ -130,7 +130,7 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val),
+        val = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val),
                                                 _mm512_cvtepi32_ps(other.val)));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx512_int_32.hpp b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
index ee87547..7f48fec 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
@@ -138,9 +138,9 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 0]),
                                                 _mm512_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 1]),
                                                 _mm512_cvtepi32_ps(other.val[ 1])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_16.hpp b/include/libflatarray/detail/short_vec_avx_int_16.hpp
index e409af1..90f3b28 100644
--- a/include/libflatarray/detail/short_vec_avx_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_16.hpp
@@ -140,9 +140,9 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val[ 0] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
                                                 _mm256_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
                                                 _mm256_cvtepi32_ps(other.val[ 1])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_32.hpp b/include/libflatarray/detail/short_vec_avx_int_32.hpp
index 2819b04..5213944 100644
--- a/include/libflatarray/detail/short_vec_avx_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_32.hpp
@@ -158,13 +158,13 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
                                                 _mm256_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
                                                 _mm256_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 2]),
+        val[ 2] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 2]),
                                                 _mm256_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 3]),
+        val[ 3] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 3]),
                                                 _mm256_cvtepi32_ps(other.val[ 3])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_8.hpp b/include/libflatarray/detail/short_vec_avx_int_8.hpp
index 91a2918..b801ee5 100644
--- a/include/libflatarray/detail/short_vec_avx_int_8.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_8.hpp
@@ -132,7 +132,7 @@ public:
     inline
     void operator/=(const short_vec<int, 8>& other)
     {
-        val = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val),
+        val = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val),
                                                 _mm256_cvtepi32_ps(other.val)));
     }
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_16.hpp b/include/libflatarray/detail/short_vec_sse_int_16.hpp
index 6eb61e3..29139e8 100644
--- a/include/libflatarray/detail/short_vec_sse_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_16.hpp
@@ -236,13 +236,13 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val[ 0] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
                                           _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
                                           _mm_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
+        val[ 2] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
                                           _mm_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
+        val[ 3] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
                                           _mm_cvtepi32_ps(other.val[ 3])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_32.hpp b/include/libflatarray/detail/short_vec_sse_int_32.hpp
index 6896002..cdf2c56 100644
--- a/include/libflatarray/detail/short_vec_sse_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_32.hpp
@@ -336,21 +336,21 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
                                           _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
                                           _mm_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
+        val[ 2] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
                                           _mm_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
+        val[ 3] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
                                           _mm_cvtepi32_ps(other.val[ 3])));
-        val[ 4] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 4]),
+        val[ 4] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 4]),
                                           _mm_cvtepi32_ps(other.val[ 4])));
-        val[ 5] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 5]),
+        val[ 5] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 5]),
                                           _mm_cvtepi32_ps(other.val[ 5])));
-        val[ 6] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 6]),
+        val[ 6] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 6]),
                                           _mm_cvtepi32_ps(other.val[ 6])));
-        val[ 7] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 7]),
+        val[ 7] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 7]),
                                           _mm_cvtepi32_ps(other.val[ 7])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_4.hpp b/include/libflatarray/detail/short_vec_sse_int_4.hpp
index 80b70d6..879818b 100644
--- a/include/libflatarray/detail/short_vec_sse_int_4.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_4.hpp
@@ -165,7 +165,7 @@ public:
     inline
     void operator/=(const short_vec<int, 4>& other)
     {
-        val = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val),
+        val = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val),
                                           _mm_cvtepi32_ps(other.val)));
     }
 
-- 
2.43.0


From 8d9eed729779527b86f8724dc1133c65cf9dde8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:59 +0000
Subject: [PATCH 12/42] fix: aligned_allocator needs room for its bookkeeping
 for alignments smaller than a pointer

---
 include/libflatarray/aligned_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libflatarray/aligned_allocator.hpp b/include/libflatarray/aligned_allocator.hpp
index efa3ed4..67fb444 100644
--- a/include/libflatarray/aligned_allocator.hpp
+++ b/include/libflatarray/aligned_allocator.hpp
@@ -76,7 +76,7 @@ public:
 
         std::size_t offset = reinterpret_cast<std::size_t>(chunk) % ALIGNMENT;
         std::size_t correction = ALIGNMENT - offset;
-        if (correction < sizeof(char*)) {
+        while (correction < sizeof(char*)) {
             correction += ALIGNMENT;
         }
         char *ret = chunk + correction;
-- 
2.43.0


From 95ea6670c87f1dab1ad44a555f6129018d7ba78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:59 +0000
Subject: [PATCH 13/42] fix: aligned_allocator must not return a too small
 chunk if the requested size overflows

---
 include/libflatarray/aligned_allocator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libflatarray/aligned_allocator.hpp b/include/libflatarray/aligned_allocator.hpp
index 67fb444..160de39 100644
--- a/include/libflatarray/aligned_allocator.hpp
+++ b/include/libflatarray/aligned_allocator.hpp
@@ -18,6 +18,7 @@
 #endif
 
 #include <memory>
+#include <new>
 
 #ifdef _MSC_BUILD
 #pragma warning( pop )
@@ -69,6 +70,11 @@ public:
         // desired offset. Since we need the original address for the
         // deallocation, we store it directly in front of the aligned
         // array's start. Ugly, but it works.
+        if (n > max_size()) {
+            // upsize() would overflow
+            throw std::bad_alloc();
+        }
+
         char *chunk = std::allocator<char>().allocate(upsize(n));
         if (chunk == 0) {
             return reinterpret_cast<pointer>(chunk);
-- 
2.43.0


From 65639ab8fce4b9f09000f412412ee470ee30d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:49 +0000
Subject: [PATCH 14/42] fix: neighbor access via const soa_accessor needs to
 compile

---
 include/libflatarray/macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/macros.hpp b/include/libflatarray/macros.hpp
index 43d73d8..859fdad 100644
--- a/include/libflatarray/macros.hpp
+++ b/include/libflatarray/macros.hpp
@@ -217,10 +217,10 @@
         template<long X, long Y, long Z>                                \
         inline                                                          \
         __host__ __device__                                             \
-        const_soa_accessor_light<CELL_TYPE, LIBFLATARRAY_PARAMS> operator[]( \
+        const_soa_accessor<CELL_TYPE, LIBFLATARRAY_PARAMS> operator[](  \
             coord<X, Y, Z>) const                                       \
         {                                                               \
-            return const_soa_accessor_light<CELL_TYPE, LIBFLATARRAY_PARAMS>( \
+            return const_soa_accessor<CELL_TYPE, LIBFLATARRAY_PARAMS>(  \
                 my_data, my_index);                                     \
         }                                                               \
                                                                         \
-- 
2.43.0


From 88e2a25fe77738a40374f9c1466a596857e667c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:21 +0000
Subject: [PATCH 15/42] fix: sign-extend gather offsets in insertps helpers

SHORTVEC_INSERT_PS(_AVX) used the 64-bit name of the register holding the
32-bit offset, whose upper half is not sign-extended: gather() with negative
offsets read wrong memory (or crashed) for float short_vecs on SSE4.1/AVX.
---
 include/libflatarray/detail/short_vec_helpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_helpers.hpp b/include/libflatarray/detail/short_vec_helpers.hpp
index 0a7ef9a..34a1186 100644
--- a/include/libflatarray/detail/short_vec_helpers.hpp
+++ b/include/libflatarray/detail/short_vec_helpers.hpp
@@ -93,7 +93,7 @@
 #define SHORTVEC_INSERT_PS(a, base, offset, idx)                        \
     do {                                                                \
         asm volatile ("insertps %1, (%q2, %q3, 4), %0\n"                \
-                      : "+x" (a) : "N" (idx), "r" (base), "r" (offset) : "memory"); \
+                      : "+x" (a) : "N" (idx), "r" (base), "r" (static_cast<long long>(offset)) : "memory"); \
     } while (0)
 
 #endif
@@ -112,7 +112,7 @@
 #define SHORTVEC_INSERT_PS_AVX(a, base, offset, idx)                    \
     do {                                                                \
         asm volatile ("vinsertps %1, (%q2, %q3, 4), %0, %0\n"           \
-                      : "+x" (a) : "N" (idx), "r" (base), "r" (offset) : "memory"); \
+                      : "+x" (a) : "N" (idx), "r" (base), "r" (static_cast<long long>(offset)) : "memory"); \
     } while (0)
 
 #endif
-- 
2.43.0


From 4dbbd14c92f1997be4f7e34cd8646448f3c472e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:14 +0000
Subject: [PATCH 16/42] fix: soa_array::load() refuses counts and offsets whose
 sum overflows

---
 include/libflatarray/soa_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 24f3467..46a319d 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -209,7 +209,8 @@ public:
     {
         using std::max;
         std::size_t new_elements = max(elements, num + offset);
-        if (new_elements > SIZE) {
+        // the sum might have overflowed, so check its operands, too
+        if ((new_elements > SIZE) || (num > SIZE) || (offset > SIZE)) {
             throw std::out_of_range("insufficient capacity for assignment (other soa_array too large)");
         }
 
-- 
2.43.0


From 60853e362702a17cfb9c2019121f3f92d5706227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:27 +0000
Subject: [PATCH 17/42] fix: broadcast to a CUDA grid must set all cells, not
 just the first

---
 include/libflatarray/detail/set_instance_functor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/set_instance_functor.hpp b/include/libflatarray/detail/set_instance_functor.hpp
index 4f07681..1a34785 100644
--- a/include/libflatarray/detail/set_instance_functor.hpp
+++ b/include/libflatarray/detail/set_instance_functor.hpp
@@ -79,7 +79,7 @@ template<typename CELL, long SOURCE_STRIDE, long DIM_X, long DIM_Y, long DIM_Z,
 __global__
 void set_kernel(const CELL *source, char *target, long count, long x, long y, long z)
 {
-    long offset = (blockDim.x * blockIdx.x + threadIdx.x) * SOURCE_STRIDE;
+    long offset = blockDim.x * blockIdx.x + threadIdx.x;
     if (offset >= count) {
         return;
     }
@@ -89,7 +89,7 @@ void set_kernel(const CELL *source, char *target, long count, long x, long y, lo
     long index = accessor_type::gen_index(x + offset, y, z);
     accessor_type accessor(target, index);
 
-    accessor << source[offset];
+    accessor << source[offset * SOURCE_STRIDE];
 }
 
 /**
-- 
2.43.0


From 6dddc4dded55e587d204d57e1241e1b0b2cc901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:27 +0000
Subject: [PATCH 18/42] fix: cuda_allocator must not return a wild pointer if
 the allocation fails

---
 include/libflatarray/cuda_allocator.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/cuda_allocator.hpp b/include/libflatarray/cuda_allocator.hpp
index 83532b6..fb28f90 100644
--- a/include/libflatarray/cuda_allocator.hpp
+++ b/include/libflatarray/cuda_allocator.hpp
@@ -24,6 +24,7 @@
 #endif
 
 #include <cuda.h>
+#include <new>
 
 #ifdef _MSC_BUILD
 #pragma warning( pop )
@@ -48,8 +49,11 @@ public:
 
     pointer allocate(std::size_t n, const void* = 0)
     {
-        pointer ret;
-        cudaMalloc(&ret, n * sizeof(T));
+        pointer ret = 0;
+        if (cudaMalloc(&ret, n * sizeof(T)) != cudaSuccess) {
+            throw std::bad_alloc();
+        }
+
         return ret;
     }
 
-- 
2.43.0


From b8143ba6eba6baa4272c45a691e2da6c1e5cca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:27 +0000
Subject: [PATCH 19/42] fix: cuda_allocator must not return a too small chunk
 if the requested size overflows

---
 include/libflatarray/cuda_allocator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libflatarray/cuda_allocator.hpp b/include/libflatarray/cuda_allocator.hpp
index fb28f90..2143032 100644
--- a/include/libflatarray/cuda_allocator.hpp
+++ b/include/libflatarray/cuda_allocator.hpp
@@ -49,6 +49,10 @@ public:
 
     pointer allocate(std::size_t n, const void* = 0)
     {
+        if (n > (static_cast<std::size_t>(-1) / sizeof(T))) {
+            throw std::bad_alloc();
+        }
+
         pointer ret = 0;
         if (cudaMalloc(&ret, n * sizeof(T)) != cudaSuccess) {
             throw std::bad_alloc();
-- 
2.43.0


From e3b5dbff59764864b33aa8a87d440cbea82b1c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:27 +0000
Subject: [PATCH 20/42] fix: assignment of cuda_array must not drop its memory
 before it has got new memory

---
 include/libflatarray/cuda_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/cuda_array.hpp b/include/libflatarray/cuda_array.hpp
index 1eb8968..2b7f50e 100644
--- a/include/libflatarray/cuda_array.hpp
+++ b/include/libflatarray/cuda_array.hpp
@@ -102,9 +102,10 @@ public:
     inline void operator=(const cuda_array& array)
     {
         if (array.size() > my_capacity) {
+            ELEMENT_TYPE *newData = LibFlatArray::cuda_allocator<ELEMENT_TYPE>().allocate(array.size());
             LibFlatArray::cuda_allocator<ELEMENT_TYPE>().deallocate(data_pointer, my_capacity);
-            data_pointer = LibFlatArray::cuda_allocator<ELEMENT_TYPE>().allocate(array.size());
 
+            data_pointer = newData;
             my_capacity = array.size();
         }
 
-- 
2.43.0


From 2169aeedd45ccd64c0de5e030fca7d520a6117cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:27 +0000
Subject: [PATCH 21/42] fix: CUDA launch configurations must not be empty

---
 include/libflatarray/detail/generate_cuda_launch_config.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/detail/generate_cuda_launch_config.hpp b/include/libflatarray/detail/generate_cuda_launch_config.hpp
index 07ab38e..98ce068 100644
--- a/include/libflatarray/detail/generate_cuda_launch_config.hpp
+++ b/include/libflatarray/detail/generate_cuda_launch_config.hpp
@@ -48,7 +48,8 @@ private:
             ret += 1;
         }
 
-        return ret;
+        // CUDA rejects empty launches, surplus threads are harmless:
+        return (ret > 0) ? ret : 1;
     }
 };
 
-- 
2.43.0


From dff9c0625e02c6c5d040405dee0eec7ec2855d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:27 +0000
Subject: [PATCH 22/42] fix: reading from a CUDA grid must not overwrite data
 which is not part of the grid

---
 include/libflatarray/detail/staging_buffer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/staging_buffer.hpp b/include/libflatarray/detail/staging_buffer.hpp
index 4407fcf..e7b6821 100644
--- a/include/libflatarray/detail/staging_buffer.hpp
+++ b/include/libflatarray/detail/staging_buffer.hpp
@@ -90,9 +90,11 @@ public:
         return delegate.data();
     }
 
-    void prep(CELL* /* new_data */)
+    void prep(const CELL *new_data)
     {
-        // intentionally left blank
+        // the target may be updated only partially, the remainder has
+        // to survive the round trip:
+        delegate.load(new_data);
     }
 
 private:
-- 
2.43.0


From 0863ffc4a3b4c3bcc88ce9668f08965547134020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:51 +0000
Subject: [PATCH 23/42] fix: loop peeler must not run beyond the end of
 negative ranges

---
 include/libflatarray/loop_peeler.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/libflatarray/loop_peeler.hpp b/include/libflatarray/loop_peeler.hpp
index 9060061..dd75771 100644
--- a/include/libflatarray/loop_peeler.hpp
+++ b/include/libflatarray/loop_peeler.hpp
@@ -80,7 +80,10 @@
             sibling_short_vec_switch<SHORT_VEC_TYPE, 1>::VALUE          \
             lfa_local_scalar;                                           \
                                                                         \
-        COUNTER_TYPE remainder = (X) %                                  \
+        /* the remainder of negative numbers may be negative */         \
+        COUNTER_TYPE remainder = ((X) %                                 \
+            COUNTER_TYPE(lfa_local_short_vec::ARITY) +                  \
+            COUNTER_TYPE(lfa_local_short_vec::ARITY)) %                 \
             COUNTER_TYPE(lfa_local_short_vec::ARITY);                   \
         COUNTER_TYPE next_stop = remainder ?                            \
             (X) + COUNTER_TYPE(lfa_local_short_vec::ARITY) - remainder : \
@@ -89,7 +92,9 @@
             next_stop = COUNTER_TYPE(END_X);                            \
         }                                                               \
         COUNTER_TYPE last_stop = (END_X) -                              \
-            (END_X) % COUNTER_TYPE(lfa_local_short_vec::ARITY);         \
+            ((END_X) % COUNTER_TYPE(lfa_local_short_vec::ARITY) +       \
+             COUNTER_TYPE(lfa_local_short_vec::ARITY)) %                \
+            COUNTER_TYPE(lfa_local_short_vec::ARITY);                   \
                                                                         \
         FUNCTION<lfa_local_scalar   >(X, next_stop, __VA_ARGS__);       \
         FUNCTION<lfa_local_short_vec>(X, last_stop, __VA_ARGS__);       \
@@ -108,14 +113,16 @@ void loop_peeler(COUNTER_TYPE1 *counter, const COUNTER_TYPE2& end, const LAMBDA&
         sibling_short_vec_switch<SHORT_VEC_TYPE, 1>::VALUE
         lfa_local_scalar;
 
-    COUNTER_TYPE2 remainder = (*counter) % COUNTER_TYPE2(lfa_local_short_vec::ARITY);
+    // the remainder of negative numbers may be negative
+    const COUNTER_TYPE2 arity = lfa_local_short_vec::ARITY;
+    COUNTER_TYPE2 remainder = ((*counter) % arity + arity) % arity;
     COUNTER_TYPE2 next_stop = remainder ?
-        (*counter) + COUNTER_TYPE2(lfa_local_short_vec::ARITY) - remainder :
+        (*counter) + arity - remainder :
         (*counter);
     if (next_stop > end) {
         next_stop = end;
     }
-    COUNTER_TYPE2 last_stop = end - end % COUNTER_TYPE2(lfa_local_short_vec::ARITY);
+    COUNTER_TYPE2 last_stop = end - (end % arity + arity) % arity;
 
     lambda(lfa_local_scalar(),    counter, next_stop);
     lambda(lfa_local_short_vec(), counter, last_stop);
-- 
2.43.0


From 99fabcd6e445e0deaf4f00322a5f43bde6c7b38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:42 +0000
Subject: [PATCH 24/42] fix: CPU detection must not read missing fields of
 /proc/cpuinfo lines

---
 include/libflatarray/testbed/cpu_benchmark.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libflatarray/testbed/cpu_benchmark.hpp b/include/libflatarray/testbed/cpu_benchmark.hpp
index eccee90..ee250b4 100644
--- a/include/libflatarray/testbed/cpu_benchmark.hpp
+++ b/include/libflatarray/testbed/cpu_benchmark.hpp
@@ -56,6 +56,10 @@ private:
 
         while (file.getline(&buffer[0], bufferSize)) {
             std::vector<std::string> tokens = tokenize(buffer, ':');
+            // processors are separated by empty lines, not all fields have a value
+            if ((tokens.size() < 2) || tokens[1].empty()) {
+                continue;
+            }
             std::vector<std::string> fields = tokenize(tokens[0], '\t');
 
             if ((fields.size() == 1) && (fields[0] == "cpu")) {
-- 
2.43.0


From 9abad56d23c46a8be782dbac92fab092af6bf401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:42 +0000
Subject: [PATCH 25/42] fix: close the pipe to likwid-topology

---
 include/libflatarray/testbed/cpu_benchmark.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libflatarray/testbed/cpu_benchmark.hpp b/include/libflatarray/testbed/cpu_benchmark.hpp
index ee250b4..2a22676 100644
--- a/include/libflatarray/testbed/cpu_benchmark.hpp
+++ b/include/libflatarray/testbed/cpu_benchmark.hpp
@@ -107,6 +107,12 @@ private:
             }
         }
 
+#ifdef _WIN32
+        _pclose(file);
+#else
+        pclose(file);
+#endif
+
         if (cpu_type.empty() || cpu_name.empty()) {
             throw std::runtime_error("failed to parse likwid-topology");
         }
-- 
2.43.0


From aba3324df67064cae0c27948ce573ef94fee8c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:54 +0000
Subject: [PATCH 26/42] fix: recognise the CPU in /proc/cpuinfo on POWER

---
 include/libflatarray/testbed/cpu_benchmark.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/testbed/cpu_benchmark.hpp b/include/libflatarray/testbed/cpu_benchmark.hpp
index 2a22676..b5e79b4 100644
--- a/include/libflatarray/testbed/cpu_benchmark.hpp
+++ b/include/libflatarray/testbed/cpu_benchmark.hpp
@@ -62,7 +62,8 @@ private:
             }
             std::vector<std::string> fields = tokenize(tokens[0], '\t');
 
-            if ((fields.size() == 1) && (fields[0] == "cpu")) {
+            // some keys are followed by more than one tab
+            if ((fields.size() > 0) && (fields[0] == "cpu")) {
                 return tokens[1];
             }
 
-- 
2.43.0


From a82fbca3f7e27d9cebbacf8980587f333110cce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:24 +0000
Subject: [PATCH 27/42] fix: last field of a line from likwid-topology has no
 value

---
 include/libflatarray/testbed/cpu_benchmark.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/libflatarray/testbed/cpu_benchmark.hpp b/include/libflatarray/testbed/cpu_benchmark.hpp
index b5e79b4..5003f97 100644
--- a/include/libflatarray/testbed/cpu_benchmark.hpp
+++ b/include/libflatarray/testbed/cpu_benchmark.hpp
@@ -98,12 +98,13 @@ private:
 
         while (fgets(&read_buffer[0], read_buffer.size(), file) != NULL) {
             std::vector<std::string> tokens = tokenize(read_buffer, ',');
-            for (std::vector<std::string>::iterator i = tokens.begin(); i != tokens.end(); ++i) {
-                if (i->find("CPU type") != std::string::npos) {
-                    cpu_type = *(++i);
+            // a field's value is the next one, the last field has none
+            for (std::size_t i = 1; i < tokens.size(); ++i) {
+                if (tokens[i - 1].find("CPU type") != std::string::npos) {
+                    cpu_type = tokens[i];
                 }
-                if (i->find("CPU name") != std::string::npos) {
-                    cpu_name = *(++i);
+                if (tokens[i - 1].find("CPU name") != std::string::npos) {
+                    cpu_name = tokens[i];
                 }
             }
         }
-- 
2.43.0


From c8729da33fd364b60833e481cb5a6e990753cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:38 +0000
Subject: [PATCH 28/42] fix: don't parse beyond the end of a line from
 likwid-topology

---
 include/libflatarray/testbed/cpu_benchmark.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/testbed/cpu_benchmark.hpp b/include/libflatarray/testbed/cpu_benchmark.hpp
index 5003f97..61f4493 100644
--- a/include/libflatarray/testbed/cpu_benchmark.hpp
+++ b/include/libflatarray/testbed/cpu_benchmark.hpp
@@ -97,7 +97,9 @@ private:
         std::string cpu_name;
 
         while (fgets(&read_buffer[0], read_buffer.size(), file) != NULL) {
-            std::vector<std::string> tokens = tokenize(read_buffer, ',');
+            // drop line end and remains of longer lines
+            std::string line(read_buffer, 0, read_buffer.find_first_of(std::string("\n\0", 2)));
+            std::vector<std::string> tokens = tokenize(line, ',');
             // a field's value is the next one, the last field has none
             for (std::size_t i = 1; i < tokens.size(); ++i) {
                 if (tokens[i - 1].find("CPU type") != std::string::npos) {
-- 
2.43.0


From f25a28a77405b02fa11dd8bf9cbf242e941befa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:56 +0000
Subject: [PATCH 29/42] fix: CPU detection must not stop at long lines of
 /proc/cpuinfo

---
 include/libflatarray/testbed/cpu_benchmark.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libflatarray/testbed/cpu_benchmark.hpp b/include/libflatarray/testbed/cpu_benchmark.hpp
index 61f4493..c03227f 100644
--- a/include/libflatarray/testbed/cpu_benchmark.hpp
+++ b/include/libflatarray/testbed/cpu_benchmark.hpp
@@ -51,10 +51,10 @@ private:
     static std::string parse_proc_cpu()
     {
         std::ifstream file("/proc/cpuinfo");
-        const std::size_t bufferSize = 1 << 12;
-        char buffer[bufferSize];
+        std::string buffer;
 
-        while (file.getline(&buffer[0], bufferSize)) {
+        // lines may be of any length
+        while (std::getline(file, buffer)) {
             std::vector<std::string> tokens = tokenize(buffer, ':');
             // processors are separated by empty lines, not all fields have a value
             if ((tokens.size() < 2) || tokens[1].empty()) {
-- 
2.43.0


From 674e9b02e23c6a3ff0a508e787471c9bef3d5cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:32 +0000
Subject: [PATCH 30/42] fix: ilp_to_arity must compile on MIC and QPX

---
 include/libflatarray/ilp_to_arity.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/ilp_to_arity.hpp b/include/libflatarray/ilp_to_arity.hpp
index 34d5df9..f4a4f5d 100644
--- a/include/libflatarray/ilp_to_arity.hpp
+++ b/include/libflatarray/ilp_to_arity.hpp
@@ -40,9 +40,14 @@ public:
     static const int BIT_WIDTH = 128;
 #  endif
 
+    // Dito for Intel's MIC (Knights Corner):
+#  ifdef __MIC__
+    static const int BIT_WIDTH = 512;
+#  endif
+
     // Only the case of the IBM PC is complicated. No thanks to you,
     // history!
-#  if !defined(__CUDA_ARCH__) && !defined(__ARM_NEON__) && !defined(__MIC__)
+#  if !defined(__CUDA_ARCH__) && !defined(__VECTOR4DOUBLE__) && !defined(__ARM_NEON__) && !defined(__MIC__)
 #    ifdef LFA_AVX512_HELPER
     static const int BIT_WIDTH = 512;
 #    else
-- 
2.43.0


From 2a1f2cae66236cb8ef8aee1e4ff984c7a0df1b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:32 +0000
Subject: [PATCH 31/42] fix: publish the alignment MIC's aligned accesses need

---
 include/libflatarray/short_vec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libflatarray/short_vec.hpp b/include/libflatarray/short_vec.hpp
index dfd69f9..9fdcd79 100644
--- a/include/libflatarray/short_vec.hpp
+++ b/include/libflatarray/short_vec.hpp
@@ -253,7 +253,7 @@ public:
         class alignment
         {
         public:
-            const static int ALIGNMENT = 32;
+            const static int ALIGNMENT = 64;
         };
     };
 
-- 
2.43.0


From 757ae6d10a5068fdf5270bd8ddb885f74bd6100d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:32 +0000
Subject: [PATCH 32/42] fix: NEON's store_nt() must store to the given address

---
 .../detail/short_vec_neon_float_16.hpp        | 31 +---------------
 .../detail/short_vec_neon_float_32.hpp        | 35 +------------------
 .../detail/short_vec_neon_float_4.hpp         | 16 +--------
 .../detail/short_vec_neon_float_8.hpp         | 21 +----------
 4 files changed, 4 insertions(+), 99 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_neon_float_16.hpp b/include/libflatarray/detail/short_vec_neon_float_16.hpp
index 0623e81..d5e4820 100644
--- a/include/libflatarray/detail/short_vec_neon_float_16.hpp
+++ b/include/libflatarray/detail/short_vec_neon_float_16.hpp
@@ -303,37 +303,8 @@ public:
     inline
     void store_nt(float *data) const
     {
-        // in arm only stnp support non-temporal hint, thus need to
-        // break into two registers. (use helper val[ 1])
-        // see if it can get optimized by compiler
-
-        // the mapping between Q registers and D registers
-
-        // stnp is for arm 64 (armv16)
-#if __LP64__
-        register float32x4_t tmp1 asm ("q0");
-        tmp1 = val[ 0];
-        register float32x4_t tmp2 asm ("q1");
-        tmp2 = val[ 1];
-        register float32x4_t tmp3 asm ("q2");
-        tmp3 = val[ 2];
-        register float32x4_t tmp4 asm ("q3");
-        tmp4 = val[ 3];
-        asm("stnp d0, d1, %[store]"
-            :[store] "=m" (data)
-            );
-        asm("stnp d2, d3, %[store]"
-            :[store] "=m" (data + 4)
-            );
-        asm("stnp d4, d5, %[store]"
-            :[store] "=m" (data + 8)
-            );
-        asm("stnp d6, d7, %[store]"
-            :[store] "=m" (data + 12)
-            );
-#else
+        // there are no intrinsics for non-temporal stores:
         store(data);
-#endif
     }
 
     // dummy approach. NEON only supports loading in fixed interleaving
diff --git a/include/libflatarray/detail/short_vec_neon_float_32.hpp b/include/libflatarray/detail/short_vec_neon_float_32.hpp
index 00edd5f..696ff31 100644
--- a/include/libflatarray/detail/short_vec_neon_float_32.hpp
+++ b/include/libflatarray/detail/short_vec_neon_float_32.hpp
@@ -399,41 +399,8 @@ public:
     inline
     void store_nt(float *data) const
     {
-        // in arm only stnp support non-temporal hint, thus need to
-        // break into two registers. (use helper val[ 1])
-        // see if it can get optimized by compiler
-
-        // the mapping between Q registers and D registers
-
-        // stnp is for arm 64 (armv32)
-#if __LP64__
-        register float32x4_t tmp1 asm ("q0");
-        tmp1 = val[ 0];
-        register float32x4_t tmp2 asm ("q1");
-        tmp2 = val[ 1];
-        register float32x4_t tmp3 asm ("q2");
-        tmp3 = val[ 2];
-        register float32x4_t tmp4 asm ("q3");
-        tmp4 = val[ 3];
-        register float32x4_t tmp5 asm ("q4");
-        tmp5 = val[ 4];
-        register float32x4_t tmp6 asm ("q5");
-        tmp6 = val[ 5];
-        register float32x4_t tmp7 asm ("q6");
-        tmp7 = val[ 6];
-        register float32x4_t tmp8 asm ("q7");
-        tmp8 = val[ 7];
-        asm("stnp d0, d1, %[store]" :[store] "=m" (data + 0));
-        asm("stnp d2, d3, %[store]" :[store] "=m" (data + 4));
-        asm("stnp d4, d5, %[store]" :[store] "=m" (data + 8));
-        asm("stnp d6, d7, %[store]" :[store] "=m" (data + 12));
-        asm("stnp d7, d8, %[store]" :[store] "=m" (data + 16));
-        asm("stnp d8, d9, %[store]" :[store] "=m" (data + 20));
-        asm("stnp d9, d10, %[store]" :[store] "=m" (data + 24));
-        asm("stnp d10, d11, %[store]" :[store] "=m" (data + 28));
-#else
+        // there are no intrinsics for non-temporal stores:
         store(data);
-#endif
     }
 
     // dummy approach. NEON only supports loading in fixed interleaving
diff --git a/include/libflatarray/detail/short_vec_neon_float_4.hpp b/include/libflatarray/detail/short_vec_neon_float_4.hpp
index 39c6887..097ab57 100644
--- a/include/libflatarray/detail/short_vec_neon_float_4.hpp
+++ b/include/libflatarray/detail/short_vec_neon_float_4.hpp
@@ -249,22 +249,8 @@ public:
     inline
     void store_nt(float *data) const
     {
-        // in arm only stnp support non-temporal hint, thus need to
-        // break into two registers. (use helper val2)
-        // see if it can get optimized by compiler
-
-        // the mapping between Q registers and D registers
-
-        // stnp is for arm 64 (armv8)
-#if __LP64__
-        register float32x4_t val2 asm ("q0");
-        val2 = val;
-        asm("stnp d0, d1, %[store]"
-            :[store] "=m" (data)
-            );
-#else
+        // there are no intrinsics for non-temporal stores:
         store(data);
-#endif
     }
 
     // dummy approach. NEON only supports loading in fixed interleaving
diff --git a/include/libflatarray/detail/short_vec_neon_float_8.hpp b/include/libflatarray/detail/short_vec_neon_float_8.hpp
index bd525d9..2a82aa2 100644
--- a/include/libflatarray/detail/short_vec_neon_float_8.hpp
+++ b/include/libflatarray/detail/short_vec_neon_float_8.hpp
@@ -250,27 +250,8 @@ public:
     inline
     void store_nt(float *data) const
     {
-        // in ARM only stnp support non-temporal hint, thus need to
-        // break into two registers. (use helper val[ 1])
-        // see if it can get optimized by compiler
-
-        // the mapping between Q registers and D registers
-
-        // stnp is for ARM 64 (armv8)
-#if __LP64__
-        register float32x4_t tmp1 asm ("q0");
-        tmp1 = val[ 0];
-        register float32x4_t tmp2 asm ("q1");
-        tmp2 = val[ 1];
-        asm("stnp d0, d1, %[store]"
-            :[store] "=m" (data)
-            );
-        asm("stnp d2, d3, %[store]"
-            :[store] "=m" (data + 4)
-            );
-#else
+        // there are no intrinsics for non-temporal stores:
         store(data);
-#endif
     }
 
     // dummy approach. NEON only supports loading in fixed interleaving
-- 
2.43.0


From 283669562146046ba823bc7bb00441c9dbfd918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:32 +0000
Subject: [PATCH 33/42] fix: NEON's aligned accesses must accept the published
 alignment

---
 include/libflatarray/detail/short_vec_neon_float_16.hpp | 4 ++--
 include/libflatarray/detail/short_vec_neon_float_32.hpp | 4 ++--
 include/libflatarray/detail/short_vec_neon_float_8.hpp  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_neon_float_16.hpp b/include/libflatarray/detail/short_vec_neon_float_16.hpp
index d5e4820..b78ba38 100644
--- a/include/libflatarray/detail/short_vec_neon_float_16.hpp
+++ b/include/libflatarray/detail/short_vec_neon_float_16.hpp
@@ -280,7 +280,7 @@ public:
     inline
     void load_aligned(const float *data)
     {
-        SHORTVEC_ASSERT_ALIGNED(data, 64);
+        SHORTVEC_ASSERT_ALIGNED(data, 16);
         load(data);
     }
 
@@ -296,7 +296,7 @@ public:
     inline
     void store_aligned(float *data) const
     {
-        SHORTVEC_ASSERT_ALIGNED(data, 64);
+        SHORTVEC_ASSERT_ALIGNED(data, 16);
         store(data);
     }
 
diff --git a/include/libflatarray/detail/short_vec_neon_float_32.hpp b/include/libflatarray/detail/short_vec_neon_float_32.hpp
index 696ff31..bd6980b 100644
--- a/include/libflatarray/detail/short_vec_neon_float_32.hpp
+++ b/include/libflatarray/detail/short_vec_neon_float_32.hpp
@@ -372,7 +372,7 @@ public:
     inline
     void load_aligned(const float *data)
     {
-        SHORTVEC_ASSERT_ALIGNED(data, 128);
+        SHORTVEC_ASSERT_ALIGNED(data, 16);
         load(data);
     }
 
@@ -392,7 +392,7 @@ public:
     inline
     void store_aligned(float *data) const
     {
-        SHORTVEC_ASSERT_ALIGNED(data, 128);
+        SHORTVEC_ASSERT_ALIGNED(data, 16);
         store(data);
     }
 
diff --git a/include/libflatarray/detail/short_vec_neon_float_8.hpp b/include/libflatarray/detail/short_vec_neon_float_8.hpp
index 2a82aa2..84ab70d 100644
--- a/include/libflatarray/detail/short_vec_neon_float_8.hpp
+++ b/include/libflatarray/detail/short_vec_neon_float_8.hpp
@@ -229,7 +229,7 @@ public:
     inline
     void load_aligned(const float *data)
     {
-        SHORTVEC_ASSERT_ALIGNED(data, 32);
+        SHORTVEC_ASSERT_ALIGNED(data, 16);
         load(data);
     }
 
@@ -243,7 +243,7 @@ public:
     inline
     void store_aligned(float *data) const
     {
-        SHORTVEC_ASSERT_ALIGNED(data, 32);
+        SHORTVEC_ASSERT_ALIGNED(data, 16);
         store(data);
     }
 
-- 
2.43.0


From fedfeca9e68d9d81648f999b44cc535f9bbabbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:32 +0000
Subject: [PATCH 34/42] fix: NEON's operator<= and operator== must compare for
 that relation

---
 include/libflatarray/detail/short_vec_neon_float_4.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_neon_float_4.hpp b/include/libflatarray/detail/short_vec_neon_float_4.hpp
index 097ab57..62f2d15 100644
--- a/include/libflatarray/detail/short_vec_neon_float_4.hpp
+++ b/include/libflatarray/detail/short_vec_neon_float_4.hpp
@@ -169,13 +169,13 @@ public:
     inline
     uint32x4_t operator<=(const short_vec<float, 4>& other) const
     {
-        return vcaleq_f32(val, other.val);
+        return vcleq_f32(val, other.val);
     }
 
     inline
     uint32x4_t operator==(const short_vec<float, 4>& other) const
     {
-        return  vcltq_f32(val, other.val);
+        return vceqq_f32(val, other.val);
     }
 
     inline
-- 
2.43.0


From b4624f6e2c30d0dfe29d4d6e577fc35841d917a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:32 +0000
Subject: [PATCH 35/42] fix: QPX short_vecs of 16 and 32 doubles must compile

---
 .../detail/short_vec_qpx_double_16.hpp        |  8 +++---
 .../detail/short_vec_qpx_double_32.hpp        | 25 +++++++------------
 2 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_qpx_double_16.hpp b/include/libflatarray/detail/short_vec_qpx_double_16.hpp
index 61c4267..29456d8 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_16.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_16.hpp
@@ -303,10 +303,10 @@ private:
 
 inline
 short_vec<double, 16>::short_vec(const sqrt_reference<double, 16>& other) :
-    val[ 0](vec_swsqrt(other.vec.val[ 0])),
-    val[ 1](vec_swsqrt(other.vec.val[ 1])),
-    val[ 2](vec_swsqrt(other.vec.val[ 2])),
-    val[ 3](vec_swsqrt(other.vec.val[ 3]))
+    val{vec_swsqrt(other.vec.val[ 0]),
+        vec_swsqrt(other.vec.val[ 1]),
+        vec_swsqrt(other.vec.val[ 2]),
+        vec_swsqrt(other.vec.val[ 3])}
 {}
 
 inline
diff --git a/include/libflatarray/detail/short_vec_qpx_double_32.hpp b/include/libflatarray/detail/short_vec_qpx_double_32.hpp
index a5a2230..eda0148 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_32.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_32.hpp
@@ -377,14 +377,7 @@ public:
     }
 
 private:
-    vector4double val[ 0];
-    vector4double val[ 1];
-    vector4double val[ 2];
-    vector4double val[ 3];
-    vector4double val[ 4];
-    vector4double val[ 5];
-    vector4double val[ 6];
-    vector4double val[ 7];
+    vector4double val[8];
 };
 
 #ifdef __ICC
@@ -414,14 +407,14 @@ private:
 
 inline
 short_vec<double, 32>::short_vec(const sqrt_reference<double, 32>& other) :
-    val[ 0](vec_swsqrt(other.vec.val[ 0])),
-    val[ 1](vec_swsqrt(other.vec.val[ 1])),
-    val[ 2](vec_swsqrt(other.vec.val[ 2])),
-    val[ 3](vec_swsqrt(other.vec.val[ 3])),
-    val[ 4](vec_swsqrt(other.vec.val[ 4])),
-    val[ 5](vec_swsqrt(other.vec.val[ 5])),
-    val[ 6](vec_swsqrt(other.vec.val[ 6])),
-    val[ 7](vec_swsqrt(other.vec.val[ 7]))
+    val{vec_swsqrt(other.vec.val[ 0]),
+        vec_swsqrt(other.vec.val[ 1]),
+        vec_swsqrt(other.vec.val[ 2]),
+        vec_swsqrt(other.vec.val[ 3]),
+        vec_swsqrt(other.vec.val[ 4]),
+        vec_swsqrt(other.vec.val[ 5]),
+        vec_swsqrt(other.vec.val[ 6]),
+        vec_swsqrt(other.vec.val[ 7])}
 {}
 
 inline
-- 
2.43.0


From e9c80f843d3bce62f662a6335126f4a6d1007afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:32 +0000
Subject: [PATCH 36/42] fix: QPX short_vecs need a strategy and must be
 printable

---
 include/libflatarray/detail/short_vec_qpx_double_16.hpp | 7 +++++++
 include/libflatarray/detail/short_vec_qpx_double_32.hpp | 9 ++++++++-
 include/libflatarray/detail/short_vec_qpx_double_4.hpp  | 7 +++++++
 include/libflatarray/detail/short_vec_qpx_double_8.hpp  | 7 +++++++
 4 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/detail/short_vec_qpx_double_16.hpp b/include/libflatarray/detail/short_vec_qpx_double_16.hpp
index 29456d8..870d0ab 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_16.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_16.hpp
@@ -49,6 +49,13 @@ class short_vec<double, 16>
 public:
     static const std::size_t ARITY = 16;
 
+    typedef short_vec_strategy::qpx strategy;
+
+    template<typename _CharT, typename _Traits>
+    friend std::basic_ostream<_CharT, _Traits>& operator<<(
+        std::basic_ostream<_CharT, _Traits>& __os,
+        const short_vec<double, 16>& vec);
+
     inline
     short_vec(const double data = 0) :
         val{vec_splats(data),
diff --git a/include/libflatarray/detail/short_vec_qpx_double_32.hpp b/include/libflatarray/detail/short_vec_qpx_double_32.hpp
index eda0148..06f4c0b 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_32.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_32.hpp
@@ -49,6 +49,13 @@ class short_vec<double, 32>
 public:
     static const std::size_t ARITY = 32;
 
+    typedef short_vec_strategy::qpx strategy;
+
+    template<typename _CharT, typename _Traits>
+    friend std::basic_ostream<_CharT, _Traits>& operator<<(
+        std::basic_ostream<_CharT, _Traits>& __os,
+        const short_vec<double, 32>& vec);
+
     inline
     short_vec(const double data = 0) :
         val{vec_splats(data),
@@ -467,7 +474,7 @@ operator<<(std::basic_ostream<_CharT, _Traits>& __os,
          << ", " << data2[0] << ", " << data2[1] << ", " << data2[2] << ", " << data2[3]
          << ", " << data3[0] << ", " << data3[1] << ", " << data3[2] << ", " << data3[3]
          << ", " << data4[0] << ", " << data4[1] << ", " << data4[2] << ", " << data4[3]
-         << "["  << data5[0] << ", " << data5[1] << ", " << data5[2] << ", " << data5[3]
+         << ", " << data5[0] << ", " << data5[1] << ", " << data5[2] << ", " << data5[3]
          << ", " << data6[0] << ", " << data6[1] << ", " << data6[2] << ", " << data6[3]
          << ", " << data7[0] << ", " << data7[1] << ", " << data7[2] << ", " << data7[3]
          << ", " << data8[0] << ", " << data8[1] << ", " << data8[2] << ", " << data8[3]
diff --git a/include/libflatarray/detail/short_vec_qpx_double_4.hpp b/include/libflatarray/detail/short_vec_qpx_double_4.hpp
index fc06a46..9a832c5 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_4.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_4.hpp
@@ -49,6 +49,13 @@ class short_vec<double, 4>
 public:
     static const std::size_t ARITY = 4;
 
+    typedef short_vec_strategy::qpx strategy;
+
+    template<typename _CharT, typename _Traits>
+    friend std::basic_ostream<_CharT, _Traits>& operator<<(
+        std::basic_ostream<_CharT, _Traits>& __os,
+        const short_vec<double, 4>& vec);
+
     inline
     short_vec(const double data = 0) :
         val(vec_splats(data))
diff --git a/include/libflatarray/detail/short_vec_qpx_double_8.hpp b/include/libflatarray/detail/short_vec_qpx_double_8.hpp
index 4bd8d9c..6648bdd 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_8.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_8.hpp
@@ -49,6 +49,13 @@ class short_vec<double, 8>
 public:
     static const std::size_t ARITY = 8;
 
+    typedef short_vec_strategy::qpx strategy;
+
+    template<typename _CharT, typename _Traits>
+    friend std::basic_ostream<_CharT, _Traits>& operator<<(
+        std::basic_ostream<_CharT, _Traits>& __os,
+        const short_vec<double, 8>& vec);
+
     inline
     short_vec(const double data = 0) :
         val{vec_splats(data),
-- 
2.43.0


From 1918591b21af33a12a820f11125c73e242848fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:33 +0000
Subject: [PATCH 37/42] fix: QPX's operator*= must multiply

---
 .../detail/short_vec_qpx_double_16.hpp           |  8 ++++----
 .../detail/short_vec_qpx_double_32.hpp           | 16 ++++++++--------
 .../detail/short_vec_qpx_double_4.hpp            |  2 +-
 .../detail/short_vec_qpx_double_8.hpp            |  4 ++--
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_qpx_double_16.hpp b/include/libflatarray/detail/short_vec_qpx_double_16.hpp
index 870d0ab..ea02e26 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_16.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_16.hpp
@@ -135,10 +135,10 @@ public:
     inline
     void operator*=(const short_vec<double, 16>& other)
     {
-        val[ 0] = vec_add(val[ 0], other.val[ 0]);
-        val[ 1] = vec_add(val[ 1], other.val[ 1]);
-        val[ 2] = vec_add(val[ 2], other.val[ 2]);
-        val[ 3] = vec_add(val[ 3], other.val[ 3]);
+        val[ 0] = vec_mul(val[ 0], other.val[ 0]);
+        val[ 1] = vec_mul(val[ 1], other.val[ 1]);
+        val[ 2] = vec_mul(val[ 2], other.val[ 2]);
+        val[ 3] = vec_mul(val[ 3], other.val[ 3]);
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_qpx_double_32.hpp b/include/libflatarray/detail/short_vec_qpx_double_32.hpp
index 06f4c0b..798c0b2 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_32.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_32.hpp
@@ -163,14 +163,14 @@ public:
     inline
     void operator*=(const short_vec<double, 32>& other)
     {
-        val[ 0] = vec_add(val[ 0], other.val[ 0]);
-        val[ 1] = vec_add(val[ 1], other.val[ 1]);
-        val[ 2] = vec_add(val[ 2], other.val[ 2]);
-        val[ 3] = vec_add(val[ 3], other.val[ 3]);
-        val[ 4] = vec_add(val[ 4], other.val[ 4]);
-        val[ 5] = vec_add(val[ 5], other.val[ 5]);
-        val[ 6] = vec_add(val[ 6], other.val[ 6]);
-        val[ 7] = vec_add(val[ 7], other.val[ 7]);
+        val[ 0] = vec_mul(val[ 0], other.val[ 0]);
+        val[ 1] = vec_mul(val[ 1], other.val[ 1]);
+        val[ 2] = vec_mul(val[ 2], other.val[ 2]);
+        val[ 3] = vec_mul(val[ 3], other.val[ 3]);
+        val[ 4] = vec_mul(val[ 4], other.val[ 4]);
+        val[ 5] = vec_mul(val[ 5], other.val[ 5]);
+        val[ 6] = vec_mul(val[ 6], other.val[ 6]);
+        val[ 7] = vec_mul(val[ 7], other.val[ 7]);
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_qpx_double_4.hpp b/include/libflatarray/detail/short_vec_qpx_double_4.hpp
index 9a832c5..364e098 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_4.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_4.hpp
@@ -112,7 +112,7 @@ public:
     inline
     void operator*=(const short_vec<double, 4>& other)
     {
-        val = vec_add(val, other.val);
+        val = vec_mul(val, other.val);
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_qpx_double_8.hpp b/include/libflatarray/detail/short_vec_qpx_double_8.hpp
index 6648bdd..bcbf2aa 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_8.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_8.hpp
@@ -119,8 +119,8 @@ public:
     inline
     void operator*=(const short_vec<double, 8>& other)
     {
-        val[ 0] = vec_add(val[ 0], other.val[ 0]);
-        val[ 1] = vec_add(val[ 1], other.val[ 1]);
+        val[ 0] = vec_mul(val[ 0], other.val[ 0]);
+        val[ 1] = vec_mul(val[ 1], other.val[ 1]);
     }
 
     inline
-- 
2.43.0


From 0701dac85b94964e4765afb9a7f9dedc9009946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:33 +0000
Subject: [PATCH 38/42] fix: provide short_vec<float, 32> on QPX

---
 include/libflatarray/detail/short_vec_scalar_float_32.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/detail/short_vec_scalar_float_32.hpp b/include/libflatarray/detail/short_vec_scalar_float_32.hpp
index ea8ade5..7ebe579 100644
--- a/include/libflatarray/detail/short_vec_scalar_float_32.hpp
+++ b/include/libflatarray/detail/short_vec_scalar_float_32.hpp
@@ -9,7 +9,8 @@
 #ifndef FLAT_ARRAY_DETAIL_SHORT_VEC_SCALAR_FLOAT_32_HPP
 #define FLAT_ARRAY_DETAIL_SHORT_VEC_SCALAR_FLOAT_32_HPP
 
-#if (LIBFLATARRAY_WIDEST_VECTOR_ISA == LIBFLATARRAY_SCALAR)
+#if (LIBFLATARRAY_WIDEST_VECTOR_ISA == LIBFLATARRAY_SCALAR) ||          \
+    (LIBFLATARRAY_WIDEST_VECTOR_ISA == LIBFLATARRAY_QPX)
 
 #include <libflatarray/config.h>
 #include <libflatarray/short_vec_base.hpp>
-- 
2.43.0


From e11197081008394caf26a211d1e6c5ab83c39133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:33 +0000
Subject: [PATCH 39/42] fix: QPX's load() and store() must handle unaligned
 addresses

---
 .../libflatarray/detail/short_vec_helpers.hpp | 27 ++++++++++++++++
 .../detail/short_vec_qpx_double_16.hpp        | 16 +++++-----
 .../detail/short_vec_qpx_double_32.hpp        | 32 +++++++++----------
 .../detail/short_vec_qpx_double_4.hpp         |  6 ++--
 .../detail/short_vec_qpx_double_8.hpp         |  8 ++---
 5 files changed, 58 insertions(+), 31 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_helpers.hpp b/include/libflatarray/detail/short_vec_helpers.hpp
index 34a1186..ce5faf0 100644
--- a/include/libflatarray/detail/short_vec_helpers.hpp
+++ b/include/libflatarray/detail/short_vec_helpers.hpp
@@ -121,6 +121,33 @@ namespace LibFlatArray {
 
 namespace ShortVecHelpers {
 
+#ifdef __VECTOR4DOUBLE__
+
+/**
+ * vec_ld() and vec_st() truncate addresses to multiples of 32 bytes.
+ * These functions access data which is aligned like a double.
+ */
+inline
+vector4double qpx_load_unaligned(const double *data)
+{
+    vector4double ret = vec_splats(data[0]);
+    ret = vec_insert(data[1], ret, 1);
+    ret = vec_insert(data[2], ret, 2);
+    ret = vec_insert(data[3], ret, 3);
+    return ret;
+}
+
+inline
+void qpx_store_unaligned(double *data, const vector4double& vec)
+{
+    data[0] = vec_extract(vec, 0);
+    data[1] = vec_extract(vec, 1);
+    data[2] = vec_extract(vec, 2);
+    data[3] = vec_extract(vec, 3);
+}
+
+#endif
+
 #ifdef __SSE4_1__
 
 /**
diff --git a/include/libflatarray/detail/short_vec_qpx_double_16.hpp b/include/libflatarray/detail/short_vec_qpx_double_16.hpp
index ea02e26..75391a1 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_16.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_16.hpp
@@ -189,10 +189,10 @@ public:
     inline
     void load(const double *data)
     {
-        val[ 0] = vec_ld(0, const_cast<double *>(data +  0));
-        val[ 1] = vec_ld(0, const_cast<double *>(data +  4));
-        val[ 2] = vec_ld(0, const_cast<double *>(data +  8));
-        val[ 3] = vec_ld(0, const_cast<double *>(data + 12));
+        val[ 0] = ShortVecHelpers::qpx_load_unaligned(data +  0);
+        val[ 1] = ShortVecHelpers::qpx_load_unaligned(data +  4);
+        val[ 2] = ShortVecHelpers::qpx_load_unaligned(data +  8);
+        val[ 3] = ShortVecHelpers::qpx_load_unaligned(data + 12);
     }
 
     inline
@@ -208,10 +208,10 @@ public:
     inline
     void store(double *data) const
     {
-        vec_st(val[ 0], 0, data +  0);
-        vec_st(val[ 1], 0, data +  4);
-        vec_st(val[ 2], 0, data +  8);
-        vec_st(val[ 3], 0, data + 12);
+        ShortVecHelpers::qpx_store_unaligned(data +  0, val[ 0]);
+        ShortVecHelpers::qpx_store_unaligned(data +  4, val[ 1]);
+        ShortVecHelpers::qpx_store_unaligned(data +  8, val[ 2]);
+        ShortVecHelpers::qpx_store_unaligned(data + 12, val[ 3]);
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_qpx_double_32.hpp b/include/libflatarray/detail/short_vec_qpx_double_32.hpp
index 798c0b2..ce3e3f7 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_32.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_32.hpp
@@ -237,14 +237,14 @@ public:
     inline
     void load(const double *data)
     {
-        val[ 0] = vec_ld(0, const_cast<double *>(data +  0));
-        val[ 1] = vec_ld(0, const_cast<double *>(data +  4));
-        val[ 2] = vec_ld(0, const_cast<double *>(data +  8));
-        val[ 3] = vec_ld(0, const_cast<double *>(data + 12));
-        val[ 4] = vec_ld(0, const_cast<double *>(data + 16));
-        val[ 5] = vec_ld(0, const_cast<double *>(data + 20));
-        val[ 6] = vec_ld(0, const_cast<double *>(data + 24));
-        val[ 7] = vec_ld(0, const_cast<double *>(data + 28));
+        val[ 0] = ShortVecHelpers::qpx_load_unaligned(data +  0);
+        val[ 1] = ShortVecHelpers::qpx_load_unaligned(data +  4);
+        val[ 2] = ShortVecHelpers::qpx_load_unaligned(data +  8);
+        val[ 3] = ShortVecHelpers::qpx_load_unaligned(data + 12);
+        val[ 4] = ShortVecHelpers::qpx_load_unaligned(data + 16);
+        val[ 5] = ShortVecHelpers::qpx_load_unaligned(data + 20);
+        val[ 6] = ShortVecHelpers::qpx_load_unaligned(data + 24);
+        val[ 7] = ShortVecHelpers::qpx_load_unaligned(data + 28);
     }
 
     inline
@@ -264,14 +264,14 @@ public:
     inline
     void store(double *data) const
     {
-        vec_st(val[ 0], 0, data +  0);
-        vec_st(val[ 1], 0, data +  4);
-        vec_st(val[ 2], 0, data +  8);
-        vec_st(val[ 3], 0, data + 12);
-        vec_st(val[ 4], 0, data + 16);
-        vec_st(val[ 5], 0, data + 20);
-        vec_st(val[ 6], 0, data + 24);
-        vec_st(val[ 7], 0, data + 28);
+        ShortVecHelpers::qpx_store_unaligned(data +  0, val[ 0]);
+        ShortVecHelpers::qpx_store_unaligned(data +  4, val[ 1]);
+        ShortVecHelpers::qpx_store_unaligned(data +  8, val[ 2]);
+        ShortVecHelpers::qpx_store_unaligned(data + 12, val[ 3]);
+        ShortVecHelpers::qpx_store_unaligned(data + 16, val[ 4]);
+        ShortVecHelpers::qpx_store_unaligned(data + 20, val[ 5]);
+        ShortVecHelpers::qpx_store_unaligned(data + 24, val[ 6]);
+        ShortVecHelpers::qpx_store_unaligned(data + 28, val[ 7]);
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_qpx_double_4.hpp b/include/libflatarray/detail/short_vec_qpx_double_4.hpp
index 364e098..3cda455 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_4.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_4.hpp
@@ -63,7 +63,7 @@ public:
 
     inline
     short_vec(const double *data) :
-        val(vec_ld(0, const_cast<double*>(data)))
+        val(ShortVecHelpers::qpx_load_unaligned(data))
     {}
 
     inline
@@ -151,7 +151,7 @@ public:
     inline
     void load(const double *data)
     {
-        val = vec_ld(0, const_cast<double*>(data));
+        val = ShortVecHelpers::qpx_load_unaligned(data);
     }
 
     inline
@@ -164,7 +164,7 @@ public:
     inline
     void store(double *data) const
     {
-        vec_st(val, 0, data);
+        ShortVecHelpers::qpx_store_unaligned(data, val);
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_qpx_double_8.hpp b/include/libflatarray/detail/short_vec_qpx_double_8.hpp
index bcbf2aa..0dda380 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_8.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_8.hpp
@@ -163,8 +163,8 @@ public:
     inline
     void load(const double *data)
     {
-        val[ 0] = vec_ld(0, const_cast<double *>(data + 0));
-        val[ 1] = vec_ld(0, const_cast<double *>(data + 4));
+        val[ 0] = ShortVecHelpers::qpx_load_unaligned(data + 0);
+        val[ 1] = ShortVecHelpers::qpx_load_unaligned(data + 4);
     }
 
     inline
@@ -178,8 +178,8 @@ public:
     inline
     void store(double *data) const
     {
-        vec_st(val[ 0], 0, data + 0);
-        vec_st(val[ 1], 0, data + 4);
+        ShortVecHelpers::qpx_store_unaligned(data + 0, val[ 0]);
+        ShortVecHelpers::qpx_store_unaligned(data + 4, val[ 1]);
     }
 
     inline
-- 
2.43.0


From 9083df8e8defd007bb6a6b09ca387aa621724ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:33 +0000
Subject: [PATCH 40/42] fix: MIC's gather() and scatter() must not miss offsets
 in the next cache line

---
 include/libflatarray/detail/short_vec_mic_double_8.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/libflatarray/detail/short_vec_mic_double_8.hpp b/include/libflatarray/detail/short_vec_mic_double_8.hpp
index 68807d8..ad861d1 100644
--- a/include/libflatarray/detail/short_vec_mic_double_8.hpp
+++ b/include/libflatarray/detail/short_vec_mic_double_8.hpp
@@ -179,6 +179,10 @@ public:
     {
         __m512i indices;
         indices = _mm512_loadunpacklo_epi32(indices, offsets);
+        // offsets may extend into the next cache line:
+        if ((reinterpret_cast<_SHORTVEC_UINTPTR_T>(offsets) % 64) > 32) {
+            indices = _mm512_loadunpackhi_epi32(indices, offsets + 16);
+        }
         val    = _mm512_i32logather_pd(indices, ptr, 8);
     }
 
@@ -187,6 +191,10 @@ public:
     {
         __m512i indices;
         indices = _mm512_loadunpacklo_epi32(indices, offsets);
+        // offsets may extend into the next cache line:
+        if ((reinterpret_cast<_SHORTVEC_UINTPTR_T>(offsets) % 64) > 32) {
+            indices = _mm512_loadunpackhi_epi32(indices, offsets + 16);
+        }
         _mm512_i32loscatter_pd(ptr, indices, val, 8);
     }
 
-- 
2.43.0


From 0d0fb057cb06db91b27ee4b0d5502bfc4b1477eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:42 +0000
Subject: [PATCH 41/42] fix: allocators must convert into allocators of other
 element types

The alignment is a std::size_t, so a template parameter of type int could
never be deduced.
---
 include/libflatarray/aligned_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libflatarray/aligned_allocator.hpp b/include/libflatarray/aligned_allocator.hpp
index 160de39..85d851c 100644
--- a/include/libflatarray/aligned_allocator.hpp
+++ b/include/libflatarray/aligned_allocator.hpp
@@ -47,7 +47,7 @@ public:
     inline aligned_allocator()
     {}
 
-    template<typename OTHER, int OTHER_ALIGNMENT>
+    template<typename OTHER, std::size_t OTHER_ALIGNMENT>
     inline explicit aligned_allocator(const aligned_allocator<OTHER, OTHER_ALIGNMENT>& /* other */)
     {}
 
-- 
2.43.0


From 4d96593878f43da7424f020734acf6a613f85b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:42 +0000
Subject: [PATCH 42/42] fix: grids beyond 2^31 cache sizes need streaming
 stores, too

The quotient was narrowed to int: rejected by C++11 compilers, otherwise a
multiple of 2^32 selected temporal stores.
---
 include/libflatarray/detail/streaming_short_vec_switch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libflatarray/detail/streaming_short_vec_switch.hpp b/include/libflatarray/detail/streaming_short_vec_switch.hpp
index 38428bb..9ed28f8 100644
--- a/include/libflatarray/detail/streaming_short_vec_switch.hpp
+++ b/include/libflatarray/detail/streaming_short_vec_switch.hpp
@@ -15,7 +15,7 @@ namespace LibFlatArray {
 namespace detail {
 namespace flat_array {
 
-template<typename CARGO, std::size_t ARITY, int STREAMING_FLAG>
+template<typename CARGO, std::size_t ARITY, long STREAMING_FLAG>
 class streaming_short_vec_switch
 {
 public:
-- 
2.43.0

