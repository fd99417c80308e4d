From 5bc7c94f22f642f05762e1a14491f4885f515f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 1/8] fix: move_before_segment(count) ends on the wrong element
 and position

The target is the last element of the previous segment minus count
elements, but the position went back by count too few and the element by
one too few (count 0 gave a past-the-end entry of the segment).
---
 include/boost/segmented_tree/seq.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 06ea217..86dabbc 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -695,8 +695,8 @@ struct static_traits_t {
   }
 
   static void move_before_segment_count(iterator_data& it, size_type count) {
-    it.pos -= it.entry.segment.index + 1 - count;
-    move_prev_leaf_count(it.entry, count);
+    it.pos -= it.entry.segment.index + 1 + count;
+    move_prev_leaf_count(it.entry, count + 1);
   }
 };
 }
-- 
2.43.0


From fa403a2f5aefa679468b2abb3d05bdebd1bcf8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 2/8] fix: purging an empty sequence deallocates a null pointer

Allocators may only be given pointers they returned.
---
 include/boost/segmented_tree/seq.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 86dabbc..e7e23f2 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1263,6 +1263,7 @@ class seq {
   }
 
   void purge_root(void_pointer pointer, size_type sz, size_type ht) {
+    if (ht == 0) return;
     if (ht < 2)
       purge_segment(static_traits::cast_segment(pointer), sz);
     else
-- 
2.43.0


From 981e6e54a6f6c7b04f8be53e9b95d4ccaf482082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 3/8] fix: insert(pos, n, value), resize and assign with an
 element of the sequence

The first insertions can move or overwrite the element value refers to,
and the later copies were then made from a different or dead element.
---
 include/boost/segmented_tree/seq.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index e7e23f2..18b52c7 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -2144,6 +2144,13 @@ class seq {
     return it;
   }
 
+  // The value may be an element of the sequence, so copy it before inserting.
+  iterator_data insert_count(iterator_data it, size_type count,
+                             T const& value) {
+    value_type const copy(value);
+    return emplace_count(it, count, copy);
+  }
+
   template <class InputIt>
   iterator_data emplace_range(iterator_data it, InputIt first, InputIt last) {
     size_type count = 0;
@@ -2182,7 +2189,7 @@ class seq {
       }
 
       if (first.pos == last.pos) {
-        emplace_count(last, count, value);
+        insert_count(last, count, value);
         return;
       }
 
@@ -3121,7 +3128,7 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   iterator insert(const_iterator pos, size_type count, T const& value) {
-    return emplace_count(pos.it_, count, value);
+    return insert_count(pos.it_, count, value);
   }
 
   /// \par Effects
@@ -3360,7 +3367,10 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void resize(size_type count, value_type const& value) {
-    resize_count(count, value);
+    if (count > size())
+      insert_count(find_end(), count - size(), value);
+    else
+      resize_count(count, value);
   }
 
   /// \par Effects
-- 
2.43.0


From 4f289ff143d39b2f5450a3251ff1ba05acf1f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 4/8] fix: resize(count) documents the strong guarantee but
 kept a partial growth

---
 include/boost/segmented_tree/seq.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 18b52c7..d0297cc 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -2228,8 +2228,14 @@ class seq {
     auto last = find_end();
     if (count < sz)
       erase_range(find_index(count), last);
-    else
-      emplace_count(last, count - sz, std::forward<Args>(args)...);
+    else {
+      try {
+        emplace_count(last, count - sz, std::forward<Args>(args)...);
+      } catch (...) {
+        while (size() != sz) erase_single(find_last());
+        throw;
+      }
+    }
   }
 
   void copy_assign_alloc(seq const& other) {
-- 
2.43.0


From 7dbaac5f47c4eb8b4fc5846c18976739aae7b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 5/8] fix: splice of a single element copies it instead of
 moving it

Dereferencing the const_iterator gave a const rvalue, so the element was
copied, and move-only types did not compile.
---
 include/boost/segmented_tree/seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index d0297cc..ac295e8 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3517,7 +3517,7 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void splice(const_iterator pos, seq& other, const_iterator it) {
-    insert(pos, std::move(*it));
+    insert(pos, std::move(*iterator{it.it_}));
     other.erase(it);
   }
 
-- 
2.43.0


From 25462cee8933d743920557213d35796188774967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 6/8] fix: trivially destructible elements skip the allocator's
 destroy

Elements are constructed through allocator_traits::construct, so an
allocator that provides destroy must see the matching calls.
---
 include/boost/segmented_tree/seq.hpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index ac295e8..533b133 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -54,6 +54,20 @@ struct is_alloc_move_construct_default {
       decltype(test<Alloc>(std::declval<Alloc>()))::value;
 };
 
+template <typename T, typename Alloc>
+struct is_alloc_destroy_default {
+ private:
+  template <typename U>
+  static auto test(U alloc)
+      -> decltype(alloc.destroy(std::declval<T*>()), std::false_type{});
+  template <typename>
+  static std::true_type test(...);
+
+ public:
+  static bool constexpr value =
+      decltype(test<Alloc>(std::declval<Alloc>()))::value;
+};
+
 template <typename T, typename VoidPointer, typename SizeType,
           std::size_t segment_target, std::size_t base_target>
 struct static_traits_t {
@@ -1241,8 +1255,11 @@ class seq {
   void purge_segment(element_pointer pointer, size_type sz) {
     purge_segment(
         pointer, sz,
-        std::integral_constant<bool,
-                               std::is_trivially_destructible<T>::value>{});
+        std::integral_constant < bool,
+        std::is_trivially_destructible<T>::value &&
+            (std::is_same<allocator_type, std::allocator<value_type>>::value ||
+             detail::is_alloc_destroy_default<value_type,
+                                              allocator_type>::value) > {});
     deallocate_segment(pointer);
   }
 
@@ -1395,9 +1412,10 @@ class seq {
         std::integral_constant < bool,
         std::is_trivially_copyable<T>::value &&
             (std::is_same<allocator_type, std::allocator<value_type>>::value ||
-             detail::is_alloc_move_construct_default<value_type,
-                                                     allocator_type>::value) >
-                {});
+             (detail::is_alloc_move_construct_default<value_type,
+                                                      allocator_type>::value &&
+              detail::is_alloc_destroy_default<value_type,
+                                               allocator_type>::value)) > {});
     return count;
   }
 
-- 
2.43.0


From b612583e942742f8b872e72a6a71c20a276c2898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 7/8] fix: delegating constructors pick the initializer_list
 constructor

With braces, an element type that is constructible from the allocator
(such as boost::any) selected seq(std::initializer_list<T>, ...).
---
 include/boost/segmented_tree/seq.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 533b133..5348d1f 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -2363,7 +2363,7 @@ class seq {
   /// \par Complexity
   ///   NlogN, where N is count.
   seq(size_type count, T const& value, Allocator const& alloc = Allocator())
-      : seq{alloc} {
+      : seq(alloc) {
     emplace_count(find_end(), count, value);
   }
 
@@ -2374,7 +2374,7 @@ class seq {
   /// \par Complexity
   ///   NlogN, where N is count.
   explicit seq(size_type count, Allocator const& alloc = Allocator())
-      : seq{alloc} {
+      : seq(alloc) {
     emplace_count(find_end(), count);
   }
 
@@ -2387,7 +2387,7 @@ class seq {
   template <class InputIt,
             typename = typename std::iterator_traits<InputIt>::pointer>
   seq(InputIt first, InputIt last, Allocator const& alloc = Allocator())
-      : seq{alloc} {
+      : seq(alloc) {
     emplace_range(find_end(), first, last);
   }
 
@@ -2397,8 +2397,8 @@ class seq {
   /// \par Complexity
   ///   NlogN, where N is other.size().
   seq(seq const& other)
-      : seq{element_traits::select_on_container_copy_construction(
-            other.get_element_allocator())} {
+      : seq(element_traits::select_on_container_copy_construction(
+            other.get_element_allocator())) {
     emplace_range(find_end(), other.begin(), other.end());
   }
 
@@ -2407,7 +2407,7 @@ class seq {
   ///
   /// \par Complexity
   ///   NlogN, where N is other.size().
-  seq(seq const& other, Allocator const& alloc) : seq{alloc} {
+  seq(seq const& other, Allocator const& alloc) : seq(alloc) {
     emplace_range(find_end(), other.begin(), other.end());
   }
 
@@ -2432,7 +2432,7 @@ class seq {
   /// \par Complexity
   ///   Constant if alloc compares equal to other's allocator. NlogN, where N is
   ///   other.size() otherwise.
-  seq(seq&& other, Allocator const& alloc) : seq{alloc} {
+  seq(seq&& other, Allocator const& alloc) : seq(alloc) {
     if (get_element_allocator() == other.get_element_allocator())
       steal(other);
     else
@@ -2447,7 +2447,7 @@ class seq {
   /// \par Complexity
   ///   NlogN, where N is init.size().
   seq(std::initializer_list<T> init, Allocator const& alloc = Allocator())
-      : seq{alloc} {
+      : seq(alloc) {
     emplace_range(find_end(), init.begin(), init.end());
   }
 
-- 
2.43.0


From 931ebd2a219852930482d8dd570a7862ffce0bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 8/8] fix: index nodes of more than 65535 entries overflow
 their 16-bit length

A base_target over 1 MiB asks for more entries than node::length and
node::parent_index can count; elements were lost.
---
 include/boost/segmented_tree/seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 5348d1f..d482be3 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -124,7 +124,7 @@ struct static_traits_t {
   }
 
   static constexpr std::size_t base_max() {
-    return base_fit() > 3 ? base_fit() : 3;
+    return base_fit() > 65535 ? 65535 : base_fit() > 3 ? base_fit() : 3;
   }
 
   static constexpr std::size_t segment_min() { return (segment_max() + 1) / 2; }
-- 
2.43.0

